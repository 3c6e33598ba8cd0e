/* N03: the simple HTTP client against scripted servers */
#include "w_common.h"
#include <mstdlib/mstdlib_net.h>
#include <mstdlib/mstdlib_formats.h>

namespace n03 {
enum Kind { OK_LEN, OK_CHUNKED, OK_CLOSE, TRUNC, STALLED, GARBAGE, OVERSIZE, REDIR, REDIR_NOLOC, REDIR_BADLOC, NO_RESPONSE, REFUSED, SILENT, NKIND };
static const char *kname[] = { "len", "chunked", "close", "trunc", "stall", "garbage", "oversize", "redir", "redir-noloc", "redir-badloc", "noresp", "refused", "silent" };
struct Hop { Kind k; int srv = 0; std::string uri, url, host; std::string resp; size_t send = 0; std::vector<std::pair<size_t, uint64_t>> segs; bool close = false; int code = 200; std::string body, tag; int seen = 0; size_t end_headers = 0; bool sent_all = false; };
struct W; struct Req {
    W *w; int id; M_net_http_simple_t *hs = NULL; std::vector<Hop> hops; int cur = -1; M_http_method_t method = M_HTTP_METHOD_GET; std::string ua, ctype, body; std::map<std::string, std::string> hdr; bool setmsg = false;
    uint64_t cto = 0, sto = 0, oto = 0, t_send = 0, t_act = 0, t_done = 0, maxrecv = 0, maxredir = 16; bool proxy = false; std::string proxy_auth;
    int done = 0; bool sent = false, failed_send = false, cancelled = false, cancel_armed = false, outside = false; M_net_error_t ne; M_http_error_t he; std::string err; int iocreates = 0; int fail_iocreate = -1;
};
struct SC { W *w; M_io_t *io; int srv; std::string in; Req *r = NULL; Hop *h = NULL; size_t off = 0, seg = 0, segleft = 0; M_event_timer_t *t = NULL; bool waiting = false, dead = false, over = false; };
struct W { M_event_t *ev = NULL, *sev = NULL; M_dns_t *dns = NULL; std::vector<M_io_t *> lst; std::vector<unsigned> port; std::vector<Req *> reqs; std::vector<SC *> sc; M_thread_mutex_t *mtx = NULL; size_t finished = 0; };
static W *G; static bool resets();

static void sc_end(SC *c) { if (c->dead) return; c->dead = true; M_event_timer_remove(c->t); c->t = NULL; M_io_destroy(c->io); c->io = NULL; }
static void sc_push(SC *c);
static void sc_timer(M_event_t *, M_event_type_t, M_io_t *, void *a) { SC *c = (SC *)a; if (c->dead) return; c->waiting = false; sc_push(c); }
static void sc_push(SC *c)
{
    Hop *h = c->h;
    while (!c->waiting && h && !c->over) {
        if (!c->segleft) {
            if (c->seg >= h->segs.size()) {
                c->over = true; h->sent_all = true;
                if (h->close) M_io_disconnect(c->io);
                return;
            }
            auto sg = h->segs[c->seg++]; c->segleft = sg.first;
            if (sg.second) { c->waiting = true; if (!c->t) c->t = M_event_timer_add(c->w->sev, sc_timer, c); M_event_timer_reset(c->t, sg.second); return; }
        }
        size_t n = 0; std::string piece = h->resp.substr(c->off, c->segleft);
        if (piece.empty()) { c->segleft = 0; continue; }
        M_io_error_t e = M_io_write(c->io, (const unsigned char *)piece.data(), piece.size(), &n);
        if (e != M_IO_ERROR_SUCCESS) return;
        c->off += n; c->segleft -= n;
    }
}
static std::string lower(std::string s) { for (auto &x : s) x = (char)tolower(x); return s; }
/* a full request arrived? check it */
static void sc_request(SC *c)
{
    size_t he = c->in.find("\r\n\r\n");
    if (he == std::string::npos) return;
    std::map<std::string, std::vector<std::string>> hd; std::string line0; size_t p = 0; bool first = true;
    while (p < he + 2) { size_t e = c->in.find("\r\n", p); std::string l = c->in.substr(p, e - p); p = e + 2; if (first) { line0 = l; first = false; continue; } size_t k = l.find(": "); SIM_CHECK(k != std::string::npos, "request-malformed", "bad header line '%s'", l.c_str()); hd[lower(l.substr(0, k))].push_back(l.substr(k + 2)); }
    size_t cl = hd.count("content-length") ? (size_t)atoll(hd["content-length"][0].c_str()) : 0;
    if (c->h) { fail("request-extra", "data after the request (%zu bytes)", c->in.size()); }
    if (c->in.size() < he + 4 + cl) return;
    /* whose is it */
    size_t a = line0.find("/r"); SIM_CHECK(a != std::string::npos, "request-malformed", "request line '%s'", line0.c_str());
    int id = -1, hop = -1; SIM_CHECK(sscanf(line0.c_str() + a, "/r%d/h%d", &id, &hop) == 2 && id >= 0 && id < (int)c->w->reqs.size(), "request-malformed", "request line '%s'", line0.c_str());
    Req *r = c->w->reqs[id]; SIM_CHECK(hop >= 0 && hop < (int)r->hops.size(), "request-malformed", "request line '%s'", line0.c_str());
    Hop *h = &r->hops[hop];
    sim::ev("req", id, hop, h->k); logf("server %d: request %d hop %d (%s)", c->srv, id, hop, kname[h->k]);
    SIM_CHECK(++h->seen == 1, "request-repeated", "request %d hop %d arrived %d times", id, hop, h->seen);
    SIM_CHECK(hop == 0 || r->hops[hop - 1].seen == 1, "redirect-order", "request %d hop %d came before the redirect to it", id, hop);
    SIM_CHECK(hop == 0 || r->hops[hop - 1].k == REDIR, "redirect-order", "request %d hop %d follows something that is no redirect", id, hop);
    SIM_CHECK(!r->done || r->ne != M_NET_ERROR_SUCCESS || r->he != M_HTTP_ERROR_SUCCESS, "request-after-done", "request %d hop %d arrived after its result was reported", id, hop);
    std::string m = r->method == M_HTTP_METHOD_GET ? "GET" : r->method == M_HTTP_METHOD_POST ? "POST" : r->method == M_HTTP_METHOD_PUT ? "PUT" : "DELETE";
    std::string want = m + " " + (r->proxy ? h->url : h->uri) + " HTTP/1.1";
    SIM_CHECK(line0 == want, "request-line", "request line is '%s', expected '%s'", line0.c_str(), want.c_str());
    SIM_CHECK(r->proxy || c->srv == h->srv, "wrong-server", "request %d hop %d went to server %d instead of %d", id, hop, c->srv, h->srv);
    SIM_CHECK(hd["host"].size() == 1 && hd["host"][0] == h->host, "request-host", "Host is '%s', expected '%s'", hd["host"].empty() ? "" : hd["host"][0].c_str(), h->host.c_str());
    if (!r->ua.empty()) SIM_CHECK(hd["user-agent"].size() == 1 && hd["user-agent"][0] == r->ua, "request-header", "User-Agent wrong");
    if (!r->ctype.empty()) SIM_CHECK(hd["content-type"].size() == 1 && hd["content-type"][0] == r->ctype, "request-header", "Content-Type wrong: '%s'", hd["content-type"].empty() ? "" : hd["content-type"][0].c_str());
    for (auto &x : r->hdr) SIM_CHECK(hd[lower(x.first)].size() == 1 && hd[lower(x.first)][0] == x.second, "request-header", "header %s sent %zu times", x.first.c_str(), hd[lower(x.first)].size());
    if (r->proxy && !r->proxy_auth.empty()) SIM_CHECK(hd["proxy-authorization"].size() == 1 && hd["proxy-authorization"][0] == r->proxy_auth, "request-header", "proxy authorization wrong");
    SIM_CHECK(cl == r->body.size(), "request-body", "Content-Length %zu, the message has %zu bytes", cl, r->body.size());
    SIM_CHECK(c->in.substr(he + 4) == r->body, "request-body", "the message arrived changed");
    c->in.clear(); c->r = r; c->h = h; r->cur = hop;
    sc_push(c);
}
static void sc_cb(M_event_t *, M_event_type_t type, M_io_t *io, void *arg)
{
    SC *c = (SC *)arg; if (c->dead) return;
    switch (type) {
    case M_EVENT_TYPE_CONNECTED: break;
    case M_EVENT_TYPE_READ: { unsigned char b[4096]; size_t n; while (M_io_read(io, b, sizeof b, &n) == M_IO_ERROR_SUCCESS) c->in.append((char *)b, n); if (c->h) SIM_CHECK(c->in.empty(), "request-extra", "%zu bytes after the request", c->in.size()); sc_request(c); break; }
    case M_EVENT_TYPE_WRITE: sc_push(c); break;
    case M_EVENT_TYPE_DISCONNECTED: case M_EVENT_TYPE_ERROR: sc_end(c); break;
    default: break;
    }
}
static void lst_cb(M_event_t *, M_event_type_t type, M_io_t *io, void *arg)
{
    if (type != M_EVENT_TYPE_ACCEPT) return;
    M_io_t *n = NULL;
    while (M_io_accept(&n, io) == M_IO_ERROR_SUCCESS) { SC *c = new SC(); c->w = G; c->io = n; c->srv = (int)(size_t)arg; G->sc.push_back(c); M_event_add(G->sev, n, sc_cb, c); n = NULL; }
}
/* ---- the client's side --------------------------------------------------------------------------- */
static void tr_cb(void *a, M_io_trace_type_t t, M_event_type_t et, const unsigned char *, size_t) { Req *r = (Req *)a; if (t == M_IO_TRACE_TYPE_EVENT && (et == M_EVENT_TYPE_READ || et == M_EVENT_TYPE_WRITE)) { r->t_act = now(); } }
static M_bool ioc_cb(M_io_t *io, char *error, size_t errlen, void *thunk)
{
    Req *r = (Req *)thunk; size_t id;
    r->t_act = now();
    if (r->fail_iocreate == r->iocreates++) { if (wl(2)) M_snprintf(error, errlen, "refused by us"); return M_FALSE; }
    SIM_CHECK(M_io_add_trace(io, &id, tr_cb, r, NULL, NULL) == M_IO_ERROR_SUCCESS, "layer-add", "trace layer refused");
    return M_TRUE;
}
static bool resets() { return net_stats().resets != 0; }
static void done_cb(M_net_error_t ne, M_http_error_t he, const M_http_simple_read_t *simple, const char *error, void *thunk)
{
    Req *r = (Req *)thunk; W *w = r->w; bool calm = !any_fault_enabled(); const uint64_t slack = 3000;
    r->t_done = now(); r->ne = ne; r->he = he; r->err = error ? error : "";
    sim::ev("done", r->id, ne, he); logf("request %d done: %s / %s '%s' after %llu ms", r->id, M_net_errcode_to_str(ne), M_http_errcode_to_str(he), r->err.c_str(), (unsigned long long)((now() - r->t_send) / MS));
    SIM_CHECK(!r->cancelled, "done-after-cancel", "request %d: the callback ran after the request was cancelled", r->id);
    SIM_CHECK(!r->failed_send, "done-after-failed-send", "request %d: the callback ran although sending was refused", r->id);
    SIM_CHECK(++r->done == 1, "done-twice", "request %d: the callback ran %d times", r->id, r->done);
    bool ok = ne == M_NET_ERROR_SUCCESS && he == M_HTTP_ERROR_SUCCESS;
    SIM_CHECK((simple != NULL) == ok, "done-simple", "request %d: response object %s although the result is %s / %s", r->id, simple ? "given" : "missing", M_net_errcode_to_str(ne), M_http_errcode_to_str(he));
    SIM_CHECK(ok || !r->err.empty(), "done-noerror", "request %d: no error text for %s", r->id, M_net_errcode_to_str(ne));
    /* the last hop that was to be reached */
    int last = (int)r->hops.size() - 1; bool limit = false, locfail = false;
    for (int i = 0; i < (int)r->hops.size(); i++) { if (r->hops[i].k != REDIR) { last = i; break; } if ((uint64_t)i + 1 > r->maxredir) { last = i; limit = true; break; } if (r->fail_iocreate == i + 1) { last = i; locfail = true; break; } }
    Hop &h = r->hops[last];
    if (ok) {
        size_t n = 0; const unsigned char *b = M_http_simple_read_body(simple, &n);
        SIM_CHECK(!limit && !locfail && (h.k == OK_LEN || h.k == OK_CHUNKED || h.k == OK_CLOSE), "false-success", "request %d reported success although the server's part was '%s'%s", r->id, limit ? "endless redirects" : kname[h.k], locfail ? " (layer refused)" : "");
        SIM_CHECK(h.seen == 1, "false-success", "request %d succeeded without being received", r->id);
        SIM_CHECK(M_http_simple_read_status_code(simple) == (M_uint32)h.code, "wrong-response", "status %u instead of %d", M_http_simple_read_status_code(simple), h.code);
        SIM_CHECK(n == h.body.size() && (n == 0 || !memcmp(b, h.body.data(), n)), "wrong-response", "request %d (%s): body of %zu bytes, %zu were sent%s", r->id, kname[h.k], n, h.body.size(), n == h.body.size() ? ", contents differ" : "");
        char *v = M_http_simple_read_header(simple, "X-Tag"); SIM_CHECK(v && h.tag == v, "wrong-response", "header X-Tag is '%s' instead of '%s'", v ? v : "", h.tag.c_str()); M_free(v);
        SIM_CHECK(r->maxrecv == 0 || h.resp.size() <= r->maxrecv + 65536, "over-limit", "accepted %zu bytes, the limit is %llu", h.resp.size(), (unsigned long long)r->maxrecv);
        probe("n03.ok");
    } else probe("n03.failed");
    if (ne == M_NET_ERROR_TIMEOUT_STALL) {
        SIM_CHECK(r->sto, "timeout-unset", "stall timeout without one set");
        SIM_CHECK(now() - r->t_act >= (r->sto - 1) * MS, "timeout-early", "stall timeout of %llu ms after %llu us of silence", (unsigned long long)r->sto, (unsigned long long)((now() - r->t_act) / US));
        probe("n03.stall_timeout");
    }
    bool conn_to = ne == M_NET_ERROR_TIMEOUT && h.k == SILENT;
    if (ne == M_NET_ERROR_TIMEOUT && !conn_to && !any_fault_enabled()) {
        SIM_CHECK(r->oto || r->cto, "timeout-unset", "timeout without one set");
        SIM_CHECK((r->oto && now() - r->t_send >= (r->oto - 1) * MS) || (r->cto && now() - r->t_send >= (r->cto - 1) * MS), "timeout-early", "timeout of %llu ms after %llu ms", (unsigned long long)r->oto, (unsigned long long)((now() - r->t_send) / MS));
        probe("n03.overall_timeout");
    }
    if (calm) {
        if (r->oto) SIM_CHECK(now() - r->t_send <= (r->oto + slack) * MS, "timeout-late", "overall timeout %llu ms, took %llu ms", (unsigned long long)r->oto, (unsigned long long)((now() - r->t_send) / MS));
        if (r->sto) SIM_CHECK(now() - r->t_act <= (r->sto + slack) * MS, "timeout-late", "stall timeout %llu ms, %llu ms passed without activity", (unsigned long long)r->sto, (unsigned long long)((now() - r->t_act) / MS));
        if (h.k == SILENT && r->cto && r->cur == last - 1) SIM_CHECK(now() - r->t_act <= (r->cto + slack) * MS, "timeout-late", "connect timeout %llu ms, took %llu ms", (unsigned long long)r->cto, (unsigned long long)((now() - r->t_act) / MS));
        /* the exact outcome, when no time limit is in play */
        bool timed = (r->oto && now() - r->t_send + 50 * MS >= r->oto * MS) || ne == M_NET_ERROR_TIMEOUT_STALL;
        if (!timed) {
            M_net_error_t want = M_NET_ERROR_SUCCESS; bool any_err = false;
            if (limit) want = M_NET_ERROR_REDIRECT_LIMIT; else if (locfail) want = M_NET_ERROR_CREATE;
            else switch (h.k) {
                case OK_LEN: case OK_CHUNKED: case OK_CLOSE: break;
                case TRUNC: case NO_RESPONSE: want = M_NET_ERROR_DISCONNET; break;
                case REDIR_NOLOC: want = M_NET_ERROR_REDIRECT; break;
                case OVERSIZE: want = M_NET_ERROR_OVER_LIMIT; break;
                case REFUSED: want = M_NET_ERROR_CONNREFUSED; break;
                case SILENT: want = M_NET_ERROR_TIMEOUT; break;
                default: any_err = true;
            }
            if (any_err) SIM_CHECK(!ok, "false-success", "request %d reported success for '%s'", r->id, kname[h.k]);
            else SIM_CHECK(ne == want && (want != M_NET_ERROR_SUCCESS || ok), "wrong-result", "request %d ('%s'%s) ended with %s / %s (%s), expected %s", r->id, kname[h.k], limit ? ", redirect limit" : "", M_net_errcode_to_str(ne), M_http_errcode_to_str(he), r->err.c_str(), M_net_errcode_to_str(want));
            if (h.k == STALLED && !limit && !locfail) SIM_CHECK(r->sto || r->oto, "wrong-result", "request %d ended although the server is silent and no timeout is set: %s", r->id, M_net_errcode_to_str(ne));
        }
    }
    r->hs = NULL; w->finished++;
}
static void do_cancel(M_event_t *, M_event_type_t, M_io_t *, void *a) { Req *r = (Req *)a; if (r->done || r->cancelled || !r->hs) return; r->cancelled = true; sim::ev("cancel", r->id); M_net_http_simple_cancel(r->hs); r->hs = NULL; r->w->finished++; probe("n03.cancelled"); }
static void do_send(Req *r)
{
    M_net_http_simple_t *hs = M_net_http_simple_create(r->w->ev, r->w->dns, done_cb); SIM_CHECK(hs, "create", "creation failed");
    r->hs = hs;
    M_net_http_simple_set_timeouts(hs, r->cto, r->sto, r->oto);
    M_net_http_simple_set_iocreate(hs, ioc_cb);
    if (r->maxredir != 16) M_net_http_simple_set_max_redirects(hs, r->maxredir);
    if (r->maxrecv) M_net_http_simple_set_max_receive_size(hs, r->maxrecv);
    if (r->proxy) { char u[64]; snprintf(u, sizeof u, "http://127.0.0.1:%u", r->w->port[0]); M_net_http_simple_set_proxy(hs, u); if (wl(2)) { M_net_http_simple_set_proxy_authentication(hs, "user", "pa:ss"); r->proxy_auth = "Basic dXNlcjpwYTpzcw=="; } }
    if (r->setmsg) {
        M_hash_dict_t *d = NULL; if (!r->hdr.empty()) { d = M_hash_dict_create(8, 75, M_HASH_DICT_NONE); for (auto &x : r->hdr) M_hash_dict_insert(d, x.first.c_str(), x.second.c_str()); }
        M_net_http_simple_set_message(hs, r->method, r->ua.empty() ? NULL : r->ua.c_str(), r->ctype.empty() ? NULL : r->ctype.c_str(), NULL, d, (const unsigned char *)r->body.data(), r->body.size());
        M_hash_dict_destroy(d);
    }
    if (wl(10) == 0) { SIM_CHECK(!M_net_http_simple_send(hs, wl(2) ? "ftp://127.0.0.1/" : "", r), "bad-url", "an unusable URL was accepted"); }
    r->t_send = r->t_act = now(); r->sent = true;
    if (!M_net_http_simple_send(hs, r->hops[0].url.c_str(), r)) {
        SIM_CHECK(r->fail_iocreate == 0 || (any_fault_enabled()), "send-refused", "request %d: sending %s was refused", r->id, r->hops[0].url.c_str());
        SIM_CHECK(!r->done, "done-after-failed-send", "callback although sending was refused");
        r->failed_send = true; M_net_http_simple_cancel(hs); r->hs = NULL; r->w->finished++; probe("n03.send_refused");
    } else if (!r->outside) SIM_CHECK(r->fail_iocreate != 0, "iocreate-ignored", "the layer callback failed, sending was accepted");
}
static void task_send(M_event_t *, M_event_type_t, M_io_t *, void *a) { do_send((Req *)a); }

static std::string body_of(size_t n) { std::string s(n, 0); for (auto &x : s) x = (char)(wl(20) == 0 ? "\r\n: ;0HTP/"[wl(10)] : 32 + wl(95)); return s; }
static void build(W *w, Req *r, size_t hop, bool is_last)
{
    Hop &h = r->hops[hop]; char t[256];
    h.srv = (int)wl(w->port.size()); unsigned port = w->port[h.srv]; const char *ip = "127.0.0.1";
    if (h.k == REFUSED) { ip = "10.9.0.1"; HostCfg c; c.refuse = true; net().hosts[ip] = c; }
    if (h.k == SILENT) { ip = "10.9.0.2"; HostCfg c; c.blackhole = true; net().hosts[ip] = c; }
    if (r->proxy) { snprintf(t, sizeof t, "%s", wl(2) ? "some.where.example" : "127.0.0.77"); ip = NULL; h.host = t; if (wl(2)) { port = 1 + (unsigned)wl(9999); } }
    else h.host = ip;
    snprintf(t, sizeof t, ":%u", port); h.host += t;
    static const char *tails[] = { "", "?a=1&b=2", "/x:y", "?t=12:30", "/deep/er?q=a:b/c", "?u=http://o.ther/z" };
    snprintf(t, sizeof t, "/r%d/h%zu%s", r->id, hop, tails[wl(6)]); h.uri = t;
    h.url = "http://" + h.host + h.uri; if (port == 80) h.host = h.host.substr(0, h.host.find(':'));
    (void)is_last;
    snprintf(t, sizeof t, "t%llx", (unsigned long long)mix(seed(), (uint64_t)r->id * 100 + hop)); h.tag = t;
}
static void build_resp(W *w, Req *r, size_t hop)
{
    Hop &h = r->hops[hop]; char t[256]; (void)w;
    size_t n = wl(3) ? wl(300) : wl(6000); if (net().bufcap < 1000 || r->maxrecv) n = std::min<size_t>(n, 400);
    static const int codes[] = { 200, 200, 201, 404, 500 };
    h.code = codes[wl(5)]; h.body = body_of(n);
    std::string hd, body; bool lenient = false;
    Kind k = h.k, frame = k;
    if (k == TRUNC || k == STALLED || k == OVERSIZE) frame = wl(2) ? OK_LEN : OK_CHUNKED;
    if (k == REDIR || k == REDIR_NOLOC || k == REDIR_BADLOC) { frame = (Kind)wl(3); if (frame == OK_CLOSE) frame = OK_LEN; h.code = 301 + (int)wl(2) + 5 * (int)wl(2); h.body = h.body.substr(0, 200); }
    if (k == OVERSIZE) { h.body = body_of((size_t)r->maxrecv + 1 + wl(500)); }
    if (frame == OK_LEN && wl(10) == 0 && k == OK_LEN) h.body.clear();
    hd += "HTTP/1.1 "; snprintf(t, sizeof t, "%d Some Reason\r\n", h.code); hd += t;
    if (wl(2)) hd += "Server: x\r\n"; 
    hd += (wl(2) ? "X-Tag: " : "x-tag:  ") + h.tag + "\r\n";
    if (k == REDIR) hd += (wl(2) ? "Location: " : "LOCATION:") + r->hops[hop + 1].url + "\r\n";
    if (k == REDIR_BADLOC) hd += std::string("Location: ") + (wl(2) ? "ftp://127.0.0.1/x" : "mailto:me") + "\r\n";
    if (frame == OK_LEN) { snprintf(t, sizeof t, "%s: %zu\r\n", wl(2) ? "Content-Length" : "content-length", h.body.size()); hd += t; body = h.body; }
    else if (frame == OK_CHUNKED) {
        hd += "Transfer-Encoding: chunked\r\n"; size_t o = 0;
        while (o < h.body.size()) { size_t c = std::min(h.body.size() - o, (size_t)(1 + (wl(2) ? wl(20) : wl(2000)))); snprintf(t, sizeof t, wl(2) ? "%zx%s\r\n" : "%zX%s\r\n", c, wl(8) == 0 ? ";ext=1" : ""); body += t + h.body.substr(o, c) + "\r\n"; o += c; }
        body += "0\r\n"; if (wl(4) == 0) body += "X-Trail: 1\r\n"; body += "\r\n";
    } else if (frame == OK_CLOSE) { body = h.body; if (!h.body.size()) lenient = true; h.close = true; }
    (void)lenient;
    hd += "\r\n"; h.resp = hd + body; h.end_headers = hd.size();
    if (k == GARBAGE) { static const char *g[] = { "HTTP/7.3 200 OK\r\n\r\n", "what is this\r\n\r\n", "HTTP/1.1 200 OK\r\nContent-Length: minus\r\n\r\n", "HTTP/1.1 200 OK\r\nBad Header : 1\r\n\r\n", "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\n", "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n2\r\nabcde\r\n0\r\n\r\n" }; h.resp = g[wl(6)]; }
    if (k == NO_RESPONSE) { h.resp.clear(); h.close = true; }
    if (k == REDIR && !r->maxrecv && wl(8) == 0) h.resp += wl(2) ? "HTTP/1.1 200 OK\r\nContent-Length: 3\r\n\r\nno!" : "left over";     /* sent with a response that is over: belongs to nothing */
    size_t total = h.resp.size();
    if (k == TRUNC) { total = wl(3) ? (body.empty() ? hd.size() - 1 : hd.size() + wl(body.size())) : wl(hd.size()); if (frame == OK_LEN && total >= h.resp.size()) total = h.resp.size() - 1; h.close = true; }
    if (k == STALLED) total = wl(2) ? wl(h.resp.size()) : 0;
    if (k == OK_LEN || k == OK_CHUNKED) h.close = wl(3) == 0;
    /* pieces and pauses */
    size_t o = 0; int style = (int)wl(4); int budget = 12; uint64_t gap = r->sto && wl(3) ? 1 + wl(r->sto / 3 + 1) : 1 + wl(200);
    while (o < total) { size_t c = total - o; if (style && budget-- > 0) c = std::min<size_t>(c, 1 + (style == 1 ? wl(4) : wl(total / 3 + 2))); h.segs.push_back({ c, style == 0 || wl(3) == 0 ? 0 : gap }); o += c; }
    if (wl(6) == 0) h.segs.push_back({ 0, 1 + wl(300) });        /* pause before closing */
    if (h.segs.empty() && k == STALLED) {}
}
}
using namespace n03;
static void http_client()
{
    world_begin();
    allow({ F_STALL, F_EINTR, F_SHORT_READ, F_SHORT_WRITE, F_EAGAIN_SPUR, F_NET_DELAY, F_NET_RESET, F_NET_CONN_REFUSED, F_NET_CONN_TIMEOUT, F_SOCKET_FAIL });
    W w; G = &w; net_swarm();
    w.ev = M_event_create(choose(CFG, 2) ? M_EVENT_FLAG_NON_SCALABLE : M_EVENT_FLAG_NONE); bool two = choose(CFG, 2);
    w.sev = two ? M_event_create(M_EVENT_FLAG_NONE) : w.ev;
    w.dns = M_dns_create(w.ev);
    size_t nsrv = 1 + wl(3);
    for (size_t i = 0; i < nsrv; i++) { M_io_t *l = NULL; for (int k = 0; k < 50 && M_io_net_server_create(&l, 0, "127.0.0.1", M_IO_NET_IPV4) != M_IO_ERROR_SUCCESS; k++) l = NULL; if (!l) inconclusive("no listener"); w.lst.push_back(l); w.port.push_back(M_io_net_get_port(l)); M_event_add(w.sev, l, n03::lst_cb, (void *)i); }
    size_t nreq = 1 + wl(4); bool anyproxy = false;
    for (size_t i = 0; i < nreq; i++) {
        Req *r = new Req(); r->w = &w; r->id = (int)i; w.reqs.push_back(r);
        if (wl(4) == 0) r->cto = 50 + wl(3000) + 3 * (net().latency + net().jitter) / MS;
        if (wl(3) == 0) r->sto = 50 + wl(3000);
        if (wl(3) == 0) r->oto = 50 + wl(6000);
        if (wl(6) == 0) r->maxredir = wl(4);
        if (wl(8) == 0) r->maxrecv = 1000 + wl(1000);
        if (wl(8) == 0) { r->proxy = true; anyproxy = true; }
        if (wl(2)) {
            r->setmsg = true; static const M_http_method_t ms[] = { M_HTTP_METHOD_GET, M_HTTP_METHOD_POST, M_HTTP_METHOD_PUT, M_HTTP_METHOD_DELETE }; r->method = ms[wl(4)];
            if (wl(2)) r->ua = "agent/1.0"; if (wl(2)) r->ctype = "text/x-test"; if (r->method != M_HTTP_METHOD_GET || wl(4) == 0) r->body = body_of(wl(3) ? wl(500) : wl(9000));
            if (net().bufcap < 1000) r->body = r->body.substr(0, 800);
            if (wl(3) == 0) { r->hdr["X-One"] = "1"; r->hdr["X-Two"] = "two words"; }
        }
        size_t nh = wl(3) ? 1 : 1 + wl(4);
        r->hops.resize(nh);
        for (size_t k = 0; k < nh; k++) { r->hops[k].k = k + 1 < nh ? REDIR : wl(2) ? (Kind)wl(3) : (Kind)wl(NKIND); if (r->hops[k].k == REDIR && k + 1 == nh) r->hops[k].k = OK_LEN; if (r->hops[k].k == OVERSIZE && !r->maxrecv) r->maxrecv = 1000 + wl(1000); if (r->proxy && (r->hops[k].k == REFUSED || r->hops[k].k == SILENT)) r->hops[k].k = OK_LEN; }
        for (size_t k = 0; k < nh; k++) build(&w, r, k, k + 1 == nh);
        for (size_t k = 0; k < nh; k++) build_resp(&w, r, k);
        if (wl(12) == 0) r->fail_iocreate = (int)wl(nh);
        r->outside = wl(4) == 0; if (r->outside) { if (r->oto) r->oto += 20000; if (r->sto) r->sto += 20000; }
    }
    (void)anyproxy;
    std::vector<Fiber *> loops;
    std::vector<Req *> late;
    for (auto r : w.reqs) { if (r->outside) late.push_back(r); else if (wl(3) == 0) do_send(r); else { late.push_back(r); } }
    loops.push_back(spawn("loop", [&] { M_event_loop(w.ev, M_TIMEOUT_INF); }));
    if (two) loops.push_back(spawn("srvloop", [&] { M_event_loop(w.sev, M_TIMEOUT_INF); }));
    for (auto r : late) { jitter(); if (r->outside) do_send(r); else M_event_queue_task(w.ev, task_send, r); }
    for (auto r : w.reqs) if (wl(8) == 0) { r->cancel_armed = true; M_event_timer_oneshot(w.ev, wl(2) ? wl(20) : wl(2000), M_TRUE, do_cancel, r); }
    deadline(now() + 40000 * SEC, "no-result", "a request never ends");
    auto endless = [&](Req *r) { if (r->sto || r->oto) return false; for (size_t i = 0; i < r->hops.size(); i++) { if (i > r->maxredir) return false; if (r->hops[i].k == STALLED || ((r->hops[i].k == GARBAGE || r->hops[i].k == TRUNC) && !r->hops[i].close && 0)) return true; } return false; };
    auto alldone = [&] { for (auto r : w.reqs) if (!r->done && !r->cancelled && !r->failed_send && !endless(r)) return false; return true; };
    wait_until(alldone, 200 * SEC, "requests end"); faults_stop(); wait_until(alldone, 400 * SEC, "requests end");
    for (auto r : w.reqs) if (!r->done && !r->cancelled && !r->failed_send && !endless(r)) fail("no-result", "request %d ('%s', hop %d of %zu, timeouts %llu/%llu/%llu) never ends", r->id, kname[r->hops.back().k], r->cur, r->hops.size(), (unsigned long long)r->cto, (unsigned long long)r->sto, (unsigned long long)r->oto);
    sleep_ns(2 * SEC);
    for (auto r : w.reqs) if (!r->done && !r->cancelled && !r->failed_send) M_event_queue_task(w.ev, do_cancel, r);
    sleep_ns(5 * SEC);
    deadline_clear();
    M_event_done(w.ev); if (two) M_event_done(w.sev);
    for (auto f : loops) join(f);
    for (auto c : w.sc) { sc_end(c); delete c; }
    for (auto l : w.lst) M_io_destroy(l);
    M_dns_destroy(w.dns);
    M_event_destroy(w.ev); if (two) M_event_destroy(w.sev);
    for (auto r : w.reqs) delete r;
    world_end();
}
SIM_WORLD(N03, http_client, "net/m_net_http_simple.c, HTTP reader and writer, io/*, event loop", "kernel sockets/epoll/poll, clock, threads; scripted servers", 2);
