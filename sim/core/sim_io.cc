/* descriptor table, pipes, sockets, epoll/poll/select and process seams */
#include "sim_int.h"
#include "sim_io.h"
#include <errno.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <fcntl.h>
#include <poll.h>
#include <unistd.h>
#include <sys/epoll.h>
#include <sys/select.h>
#include <sys/ioctl.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include <netdb.h>
#include <ifaddrs.h>
#include <sanitizer/asan_interface.h>
#include <algorithm>

namespace sim {
void sigpipe_raise();

/* ---------------------------------------------------------------- processes' descriptor tables --- */
struct Proc {
    int pid; Proc *parent; bool exited; bool reaped; int status; bool killed; int base;
    std::map<int, FileP> fds;
    std::set<int> ce;               /* close-on-exec */
    Fiber *fiber;
};
static std::vector<Proc *> *procs;
static Proc *mainp;
static int g_pid = 4242;
static ProcStats g_pstats;
ProcStats &proc_stats() { g_pstats.zombies = 0; for (Proc *p : *procs) if (p->exited && !p->reaped && p->parent == mainp) g_pstats.zombies++; return g_pstats; }
static Proc *proc() { return cur && cur->proc ? cur->proc : mainp; }

void kernel_init()
{
    procs = new std::vector<Proc *>;
    mainp = new Proc; mainp->pid = g_pid++; mainp->parent = NULL; mainp->exited = mainp->reaped = mainp->killed = false; mainp->status = 0; mainp->base = 100; mainp->fiber = cur;
    cur->proc = mainp;
    procs->push_back(mainp);
    fs_reset();
}
static int fd_alloc(FileP f, bool ce = false)
{
    Proc *p = proc();
    int fd = 100;
    while (p->fds.count(fd)) fd++;
    p->fds[fd] = f; f->nfds++; if (ce) p->ce.insert(fd); else p->ce.erase(fd);
    return fd;
}
int fd_install(FileP f, bool ce) { return fd_alloc(f, ce); }
FileP fd_get(int fd)
{
    Proc *p = proc();
    auto it = p->fds.find(fd);
    return it == p->fds.end() ? FileP() : it->second;
}
static void file_put(FileP f) { if (--f->nfds == 0) f->last_close(); }
size_t open_fds() { return mainp->fds.size(); }
std::string open_fds_desc() { std::string s; for (auto &e : mainp->fds) s += std::to_string(e.first) + ":" + e.second->kind + " "; return s; }

ssize_t File::read(void *, size_t) { errno = EINVAL; return -1; }
ssize_t File::write(const void *, size_t) { errno = EINVAL; return -1; }

/* ---------------------------------------------------------------- epoll ------------------------- */
struct Epoll;
struct EpollItem { Epoll *ep; File *f; int fd; uint32_t events; epoll_data_t data; bool armed; uint64_t seq; };
struct Epoll : File {
    std::vector<EpollItem *> items;
    std::deque<EpollItem *> rdy;
    Epoll() { kind = "epoll"; }
    ~Epoll() { for (auto i : items) { drop(i); delete i; } }
    void drop(EpollItem *i) { auto &w = i->f->watchers; w.erase(std::remove(w.begin(), w.end(), i), w.end()); rdy.erase(std::remove(rdy.begin(), rdy.end(), i), rdy.end()); }
    void arm(EpollItem *i) { if (!i->armed) { i->armed = true; rdy.push_back(i); } }
    bool any() { for (auto i : rdy) if (i->f->ready() & (i->events | POLLERR | POLLHUP)) return true; return false; }
    short ready() override { return any() ? POLLIN : 0; }
};
void File::notify(short mask)
{
    std::vector<EpollItem *> w = watchers;
    for (auto i : w) if (mask & (i->events | POLLERR | POLLHUP)) i->ep->arm(i);
    io_changed();
}
static void file_forget(File *f)
{
    std::vector<EpollItem *> w = f->watchers;
    for (auto i : w) { Epoll *e = i->ep; e->drop(i); e->items.erase(std::remove(e->items.begin(), e->items.end(), i), e->items.end()); delete i; }
    f->watchers.clear();
}

/* ---------------------------------------------------------------- pipes ------------------------- */
struct PipeBuf { std::string data; size_t cap; File *r = NULL, *w = NULL; FileP *dummy = NULL; };
struct PipeEnd : File {
    std::shared_ptr<PipeBuf> b; bool wr;
    PipeEnd(std::shared_ptr<PipeBuf> pb, bool w) : b(pb), wr(w) { kind = w ? "pipe-w" : "pipe-r"; }
    short ready() override
    {
        if (!wr) return (b->data.empty() ? 0 : POLLIN | POLLRDNORM) | (b->w ? 0 : POLLHUP);
        return (room() ? POLLOUT | POLLWRNORM : 0) | (b->r ? 0 : POLLERR);
    }
    bool room() const { return b->data.size() + std::min<size_t>(b->cap, 4096) <= b->cap; }     /* writable means an atomic write fits */
    ssize_t read(void *p, size_t n) override
    {
        if (wr) { errno = EBADF; return -1; }
        while (b->data.empty()) {
            if (!b->w) return 0;
            if (flags & O_NONBLOCK) { errno = EAGAIN; return -1; }
            if (fault(F_EINTR)) { errno = EINTR; return -1; }
            PipeBuf *bb = b.get();
            io_block([bb] { return !bb->data.empty() || !bb->w; }, "pipe-read", NEVER);
            if (cur->proc && cur->proc->killed && cur->proc != mainp) { errno = EIO; return -1; }
        }
        size_t k = std::min(n, b->data.size());
        memcpy(p, b->data.data(), k);
        b->data.erase(0, k);
        if (b->w && b->w->nospace && static_cast<PipeEnd *>(b->w)->room()) { b->w->nospace = false; b->w->notify(POLLOUT); }
        else io_changed();
        return (ssize_t)k;
    }
    ssize_t write(const void *p, size_t n) override
    {
        if (!wr) { errno = EBADF; return -1; }
        size_t done = 0;
        for (;;) {
            if (!b->r) { if (done) return (ssize_t)done; sigpipe_raise(); errno = EPIPE; return -1; }
            size_t space = b->cap - std::min(b->cap, b->data.size());
            size_t want = n - done;
            if (space && (space >= want || want > 4096 || want > b->cap)) {
                size_t k = std::min(space, want);
                if ((flags & O_NONBLOCK) && k > 1 && fault(F_SHORT_WRITE)) { k = 1 + choose(FAULT, k - 1); nospace = true; FileP me = shared_from_this(); at(now() + 100 * US, [me] { if (me->nospace && (me->ready() & POLLOUT)) { me->nospace = false; me->notify(POLLOUT); } }); }
                b->data.append((const char *)p + done, k); done += k;
                if (!room()) nospace = true;       /* a full pipe signals its writer at the next read */
                if (b->r) b->r->notify(POLLIN);
                if (done == n || (flags & O_NONBLOCK)) return (ssize_t)done;
                continue;
            }
            if (flags & O_NONBLOCK) { nospace = true; if (done) return (ssize_t)done; errno = EAGAIN; return -1; }
            PipeBuf *bb = b.get();
            io_block([bb, want] { size_t sp = bb->cap - std::min(bb->cap, bb->data.size()); return (sp && (sp >= want || want > 4096 || want > bb->cap)) || !bb->r; }, "pipe-write", NEVER);
            if (cur->proc && cur->proc->killed && cur->proc != mainp) { errno = EIO; return -1; }
        }
    }
    void last_close() override
    {
        file_forget(this);
        if (wr) { b->w = NULL; if (b->r) b->r->notify(POLLHUP | POLLIN | POLLRDHUP); }
        else { b->r = NULL; if (b->w) b->w->notify(POLLERR | POLLOUT); }
        io_changed();
    }
};
static int do_pipe(int fds[2], int fl)
{
    if (fault(F_PIPE_FAIL)) { errno = EMFILE; return -1; }
    auto b = std::make_shared<PipeBuf>();
    b->cap = net().bufcap < 65536 ? std::max<size_t>(net().bufcap, 16) : 65536;
    auto r = std::make_shared<PipeEnd>(b, false), w = std::make_shared<PipeEnd>(b, true);
    b->r = r.get(); b->w = w.get();
    r->flags = w->flags = fl & O_NONBLOCK;
    fds[0] = fd_alloc(r, fl & O_CLOEXEC); fds[1] = fd_alloc(w, fl & O_CLOEXEC);
    return 0;
}

/* ---------------------------------------------------------------- sockets ----------------------- */
static NetCfg   g_net;
static NetStats g_nstats;
NetCfg &net() { return g_net; }
NetStats &net_stats() { return g_nstats; }
struct Addr { int fam = AF_INET; std::string ip; uint16_t port = 0; };
static std::string v6str(const std::string &ip) { return ip.find(':') == std::string::npos ? "::ffff:" + ip : ip; }
static Addr from_sa(const struct sockaddr *sa)
{
    Addr a; char b[64] = "";
    a.fam = sa->sa_family;
    if (sa->sa_family == AF_INET) { const sockaddr_in *s = (const sockaddr_in *)sa; inet_ntop(AF_INET, &s->sin_addr, b, sizeof b); a.port = ntohs(s->sin_port); }
    else if (sa->sa_family == AF_INET6) { const sockaddr_in6 *s = (const sockaddr_in6 *)sa; inet_ntop(AF_INET6, &s->sin6_addr, b, sizeof b); a.port = ntohs(s->sin6_port); }
    a.ip = b;
    return a;
}
static void to_sa(const Addr &a, struct sockaddr *sa, socklen_t *len)
{
    struct sockaddr_storage ss; memset(&ss, 0, sizeof ss); socklen_t l;
    if (a.fam == AF_INET6) { sockaddr_in6 *s = (sockaddr_in6 *)&ss; s->sin6_family = AF_INET6; s->sin6_port = htons(a.port); inet_pton(AF_INET6, v6str(a.ip).c_str(), &s->sin6_addr); l = sizeof *s; }
    else { sockaddr_in *s = (sockaddr_in *)&ss; s->sin_family = AF_INET; s->sin_port = htons(a.port); inet_pton(AF_INET, a.ip.c_str(), &s->sin_addr); l = sizeof *s; }
    memcpy(sa, &ss, std::min(l, *len)); *len = l;
}
struct Sock;
typedef std::shared_ptr<Sock> SockP;
static std::vector<std::weak_ptr<Sock>> *g_socks;
enum SState { S_INIT, S_LISTEN, S_CONNECTING, S_CONN, S_DEAD };
struct Sock : File {
    int fam, type; SState st = S_INIT; Addr local, remote; bool bound = false;
    std::deque<SockP> backlog; size_t backlog_max = 512;
    std::weak_ptr<Sock> peer; SockP peer_hold;
    std::string rcv; size_t inflight = 0;          /* inflight: bytes this socket sent that the peer has not read yet */
    uint64_t last_arrive = 0;
    bool fin_rcvd = false, fin_sent = false, shut_rd = false, dead = false, closed = false;
    int  so_error = 0;
    std::deque<std::pair<Addr, std::string>> dgrams;
    Sock(int f, int t) : fam(f), type(t) { kind = t == SOCK_DGRAM ? "udp" : "tcp"; }
    size_t room() { return inflight >= g_net.bufcap ? 0 : g_net.bufcap - inflight; }
    short ready() override
    {
        if (type == SOCK_DGRAM) return (dgrams.empty() ? 0 : POLLIN | POLLRDNORM) | POLLOUT | POLLWRNORM | (so_error ? POLLERR : 0);
        switch (st) {
            case S_INIT: return POLLOUT | POLLHUP;
            case S_LISTEN: return backlog.empty() ? 0 : POLLIN | POLLRDNORM;
            case S_CONNECTING: return 0;
            case S_CONN: return (!rcv.empty() || fin_rcvd ? POLLIN | POLLRDNORM : 0) | (fin_rcvd ? POLLRDHUP : 0) | (room() && !fin_sent ? POLLOUT | POLLWRNORM : 0) |
                                (fin_sent ? POLLOUT : 0) | (fin_rcvd && fin_sent ? POLLHUP : 0);
            case S_DEAD: return POLLIN | POLLOUT | POLLHUP | POLLRDHUP | (so_error ? POLLERR : 0);
        }
        return 0;
    }
    void kill(int err)
    {
        if (st == S_DEAD) return;
        st = S_DEAD; so_error = err; dead = true; peer.reset(); peer_hold.reset();
        notify(POLLIN | POLLOUT | POLLERR | POLLHUP | POLLRDHUP);
    }
    void last_close() override;
    ssize_t read(void *p, size_t n) override;
    ssize_t write(const void *p, size_t n) override;
};
static uint64_t lat()
{
    uint64_t l = g_net.latency + (g_net.jitter ? choose(RND, g_net.jitter / US + 1) * US : 0);
    if (fault(F_NET_DELAY)) l += (1 + choose(FAULT, 200)) * 10 * MS;
    return l;
}
static uint64_t seg_time(Sock *s)
{
    uint64_t t = now() + lat();
    if (t <= s->last_arrive) t = s->last_arrive + 1;
    return s->last_arrive = t;
}
static void send_rst(Sock *from, SockP to)
{
    if (!to) return;
    uint64_t t = now() + g_net.latency;
    (void)from;
    at(t, [to] { if (to->st == S_CONN) to->kill(to->fin_rcvd ? EPIPE : ECONNRESET); });
}
static void inject_reset(SockP a)
{
    SockP b = a->peer.lock();
    g_nstats.resets++;
    ev("net_reset");
    a->kill(ECONNRESET);
    if (b) b->kill(ECONNRESET);
}
static void maybe_reset(Sock *s)
{
    if (s->st == S_CONN && fault(F_NET_RESET)) {
        SockP me = std::static_pointer_cast<Sock>(s->shared_from_this());
        at(now() + choose(FAULT, 50) * 100 * US, [me] { if (me->st == S_CONN) inject_reset(me); });
    }
}
void Sock::last_close()
{
    file_forget(this);
    closed = true;
    SockP p = peer.lock();
    if (st == S_CONN && p) {
        if (!rcv.empty()) { send_rst(this, p); }
        else if (!fin_sent) {
            fin_sent = true;
            uint64_t t = seg_time(this);
            at(t, [p] { if (p->st == S_CONN) { p->fin_rcvd = true; p->notify(POLLIN | POLLRDHUP | (p->fin_sent ? POLLHUP : 0)); } });
        }
    }
    if (st == S_LISTEN) for (auto &b : backlog) { SockP q = b->peer.lock(); if (q) send_rst(this, q); }
    backlog.clear();
    if (st == S_LISTEN) st = S_DEAD;
    if (st == S_CONNECTING) st = S_DEAD;
    io_changed();
}
ssize_t Sock::read(void *p, size_t n)
{
    if (type == SOCK_DGRAM) {
        while (dgrams.empty()) {
            if (so_error) { errno = so_error; so_error = 0; return -1; }
            if (flags & O_NONBLOCK) { errno = EAGAIN; return -1; }
            io_block([this] { return !dgrams.empty(); }, "udp-recv", NEVER);
        }
        std::string d = dgrams.front().second; dgrams.pop_front();
        size_t k = std::min(n, d.size()); memcpy(p, d.data(), k); return (ssize_t)k;
    }
    maybe_reset(this);
    for (;;) {
        if (!rcv.empty()) {
            size_t k = std::min(n, rcv.size());
            memcpy(p, rcv.data(), k); rcv.erase(0, k);
            SockP q = peer.lock();
            if (q) { q->inflight -= std::min(q->inflight, k); if (q->nospace && q->room()) { q->nospace = false; at(now() + g_net.latency, [q] { if (q->st == S_CONN) q->notify(POLLOUT); }); } }
            return (ssize_t)k;
        }
        if (so_error) { errno = so_error; so_error = 0; return -1; }
        if (st == S_DEAD || fin_rcvd || shut_rd) return 0;
        if (st != S_CONN) { errno = ENOTCONN; return -1; }
        if (flags & O_NONBLOCK) { errno = EAGAIN; return -1; }
        io_block([this] { return !rcv.empty() || so_error || st != S_CONN || fin_rcvd; }, "tcp-recv", NEVER);
    }
}
ssize_t Sock::write(const void *p, size_t n)
{
    maybe_reset(this);
    size_t done = 0;
    for (;;) {
        if (so_error) { if (done) return (ssize_t)done; errno = so_error; so_error = 0; return -1; }
        if (st == S_DEAD || fin_sent) { if (done) return (ssize_t)done; errno = EPIPE; return -2; }
        if (st == S_CONNECTING) { errno = EAGAIN; nospace = true; return -1; }
        if (st != S_CONN) { errno = ENOTCONN; return -1; }
        if (n == 0) return 0;
        size_t k = std::min(room(), n - done);
        if (k) {
            if ((flags & O_NONBLOCK) && k > 1 && fault(F_SHORT_WRITE)) {
                k = 1 + choose(FAULT, k - 1);
                nospace = true;
                SockP me = std::static_pointer_cast<Sock>(shared_from_this());
                at(now() + 200 * US, [me] { if (me->nospace && me->room()) { me->nospace = false; me->notify(POLLOUT); } });
            }
            SockP q = peer.lock();
            inflight += k; g_nstats.bytes += k;
            size_t off = 0;
            while (off < k) {
                size_t seg = std::min(k - off, g_net.maxseg);
                if (seg > 1 && fault(F_SHORT_READ)) seg = 1 + choose(FAULT, seg - 1);
                std::string d((const char *)p + done + off, seg);
                off += seg;
                uint64_t t = seg_time(this);
                SockP me = std::static_pointer_cast<Sock>(shared_from_this());
                at(t, [q, me, d] {
                    if (!q || q->closed || q->st != S_CONN) { if (me->st == S_CONN) me->kill(me->fin_rcvd ? EPIPE : ECONNRESET); return; }
                    q->rcv += d; q->notify(POLLIN);
                });
            }
            done += k;
            if (done == n || (flags & O_NONBLOCK)) { if (done < n) nospace = true; return (ssize_t)done; }
            continue;
        }
        nospace = true;
        if (flags & O_NONBLOCK) { errno = EAGAIN; return -1; }
        io_block([this] { return room() || so_error || st != S_CONN; }, "tcp-send", NEVER);
    }
}
static SockP sock(int fd)
{
    FileP f = fd_get(fd);
    if (!f) { errno = EBADF; return SockP(); }
    SockP s = std::dynamic_pointer_cast<Sock>(f);
    if (!s) errno = ENOTSOCK;
    return s;
}
static uint16_t g_eph = 33000;
static SockP find_listener(const std::string &ip, uint16_t port, int fam)
{
    for (auto &w : *g_socks) {
        SockP s = w.lock();
        if (!s || s->st != S_LISTEN || s->closed || s->local.port != port) continue;
        const std::string &l = s->local.ip;
        if (l == ip || l == "::" || (l == "0.0.0.0" && fam == AF_INET) || l == "::ffff:" + ip) return s;
    }
    return SockP();
}
size_t net_live_conns() { size_t n = 0; for (auto &w : *g_socks) { SockP s = w.lock(); if (s && s->type == SOCK_STREAM && s->st == S_CONN && !s->closed) n++; } return n; }
void net_reset_all(bool one)
{
    for (auto &w : *g_socks) { SockP s = w.lock(); if (s && s->type == SOCK_STREAM && s->st == S_CONN) { fault_count(F_NET_RESET); inject_reset(s); if (one) return; } }
}
void net_swarm()
{
    static const uint64_t ls[5] = { 50 * US, 0, 1 * MS, 20 * MS, 100 * MS };
    g_net.latency = ls[choose(CFG, 5)];
    if (choose(CFG, 2)) g_net.jitter = g_net.latency + 30 * US;
    static const size_t caps[5] = { 65536, 65536, 4096, 300, 23 };
    g_net.bufcap = caps[choose(CFG, 5)];
    if (g_net.bufcap < 65536) fault_count(F_SMALL_BUF);
    static const size_t segs[4] = { 1460, 16384, 100, 7 };
    g_net.maxseg = segs[choose(CFG, 4)];
    if (g_net.bufcap > 5000 && g_net.maxseg < 100) g_net.maxseg = 100;
}
static int do_connect(int fd, const struct sockaddr *sa)
{
    point("connect");
    SockP s = sock(fd);
    if (!s) return -1;
    Addr a = from_sa(sa);
    s->remote = a;
    if (s->type == SOCK_DGRAM) { if (!s->bound) { s->local.fam = a.fam; s->local.ip = a.fam == AF_INET6 ? "::1" : "127.0.0.1"; s->local.port = g_eph++; s->bound = true; } s->st = S_CONN; return 0; }
    if (s->st == S_CONN) { errno = EISCONN; return -1; }
    if (s->st == S_CONNECTING) { errno = EALREADY; return -1; }
    s->local.fam = a.fam; if (s->local.ip.empty()) s->local.ip = a.fam == AF_INET6 ? "::1" : "127.0.0.1";
    if (!s->local.port) s->local.port = g_eph++;
    g_nstats.connects++;
    HostCfg h; auto it = g_net.hosts.find(a.ip); if (it != g_net.hosts.end()) h = it->second;
    if (h.unreachable) { errno = ENETUNREACH; return -1; }
    bool refuse = h.refuse, black = h.blackhole;
    if (fault(F_NET_CONN_REFUSED)) refuse = true;
    if (fault(F_NET_CONN_TIMEOUT)) black = true;
    s->st = S_CONNECTING;
    SockP me = s;
    uint64_t t = now() + lat() + h.latency;
    ev("connect", a.port, refuse, black);
    if (black) { at(now() + 127 * SEC, [me] { if (me->st == S_CONNECTING) me->kill(ETIMEDOUT); }); }
    else if (refuse) at(t + h.refuse_delay, [me] { if (me->st == S_CONNECTING) me->kill(ECONNREFUSED); });
    else at(t, [me, a] {
        if (me->st != S_CONNECTING || me->closed) return;
        SockP l = find_listener(a.ip, a.port, a.fam);
        if (!l || l->backlog.size() >= l->backlog_max) { me->kill(ECONNREFUSED); return; }
        SockP srv = std::make_shared<Sock>(l->fam, SOCK_STREAM);
        g_socks->push_back(srv);
        srv->st = S_CONN; srv->local = a; srv->local.fam = l->fam; srv->remote = me->local; srv->remote.fam = l->fam;
        srv->peer = me; me->peer = srv; me->peer_hold = srv;
        me->st = S_CONN;
        l->backlog.push_back(srv);
        me->notify(POLLOUT);
        l->notify(POLLIN);
    });
    if (s->flags & O_NONBLOCK) { errno = EINPROGRESS; return -1; }
    io_block([me] { return me->st != S_CONNECTING; }, "connect", NEVER);
    if (s->st != S_CONN) { errno = s->so_error ? s->so_error : ECONNABORTED; s->so_error = 0; return -1; }
    return 0;
}
} /* namespace sim */
using namespace sim;

#define FGET(fd) FileP f = fd_get(fd); if (!f) { errno = EBADF; return -1; }

extern "C" {



int __wrap_socket(int fam, int type, int)
{
    point("socket");
    if (fault(F_SOCKET_FAIL)) { errno = EMFILE; return -1; }
    if (!g_socks) g_socks = new std::vector<std::weak_ptr<Sock>>;
    SockP s = std::make_shared<Sock>(fam, type & 0xf);
    if (type & SOCK_NONBLOCK) s->flags |= O_NONBLOCK;
    g_socks->push_back(s);
    int fd = fd_alloc(s, type & SOCK_CLOEXEC);
    ev("socket", fd);
    return fd;
}
int __wrap_bind(int fd, const struct sockaddr *sa, socklen_t)
{
    point("bind");
    SockP s = sock(fd); if (!s) return -1;
    Addr a = from_sa(sa);
    if (a.port == 0) a.port = g_eph++;
    else if (s->type == SOCK_STREAM) for (auto &w : *g_socks) { SockP o = w.lock(); if (o && o != s && o->bound && !o->closed && o->type == SOCK_STREAM && o->local.port == a.port && (o->st == S_LISTEN || o->st == S_INIT) && (o->local.ip == a.ip || o->local.ip == "::" || o->local.ip == "0.0.0.0" || a.ip == "::" || a.ip == "0.0.0.0")) { errno = EADDRINUSE; return -1; } }
    s->local = a; s->bound = true;
    return 0;
}
int __wrap_listen(int fd, int bl) { point("listen"); SockP s = sock(fd); if (!s) return -1; s->st = S_LISTEN; s->backlog_max = bl > 0 ? bl : 1; ev("listen", fd, s->local.port); return 0; }
int __wrap_accept4(int fd, struct sockaddr *sa, socklen_t *len, int fl)
{
    point("accept");
    SockP s = sock(fd); if (!s) return -1;
    if (s->st != S_LISTEN) { errno = EINVAL; return -1; }
    for (;;) {
        if (!s->backlog.empty()) {
            SockP c = s->backlog.front();
            if (fault(F_ACCEPT_FAIL)) { s->backlog.pop_front(); SockP q = c->peer.lock(); if (q) send_rst(c.get(), q); c->kill(ECONNABORTED); errno = ECONNABORTED; return -1; }
            s->backlog.pop_front();
            { SockP q = c->peer.lock(); if (q) q->peer_hold.reset(); }
            if (fl & SOCK_NONBLOCK) c->flags |= O_NONBLOCK;
            int nfd = fd_alloc(c, fl & SOCK_CLOEXEC);
            if (sa) to_sa(c->remote, sa, len);
            g_nstats.accepts++;
            ev("accept", fd, nfd);
            return nfd;
        }
        if (s->flags & O_NONBLOCK) { errno = EAGAIN; return -1; }
        io_block([s] { return !s->backlog.empty() || s->closed; }, "accept", NEVER);
        if (s->closed) { errno = EINVAL; return -1; }
    }
}
int __wrap_accept(int fd, struct sockaddr *sa, socklen_t *len) { return __wrap_accept4(fd, sa, len, 0); }
int __wrap_connect(int fd, const struct sockaddr *sa, socklen_t) { return do_connect(fd, sa); }
ssize_t __wrap_recv(int fd, void *p, size_t n, int)
{
    point("recv");
    SockP s = sock(fd); if (!s) return -1;
    ssize_t r = s->read(p, n);
    ev("recv", fd, r, r < 0 ? errno : 0);
    return r;
}
ssize_t __wrap_recvfrom(int fd, void *p, size_t n, int fl, struct sockaddr *sa, socklen_t *len)
{
    SockP s = sock(fd); if (!s) return -1;
    if (sa && len) to_sa(s->remote, sa, len);
    if (s->type == SOCK_DGRAM && !s->dgrams.empty() && sa && len) to_sa(s->dgrams.front().first, sa, len);
    return __wrap_recv(fd, p, n, fl);
}
static ssize_t udp_send(SockP s, const Addr &to, const void *p, size_t n)
{
    std::string d((const char *)p, n);
    if (!g_net.udp) { return (ssize_t)n; }
    if (fault(F_DNS_LOSS)) return (ssize_t)n;
    Addr from = s->local, dst = to;
    std::weak_ptr<Sock> ws = s;
    uint64_t t = now() + g_net.latency + (fault(F_DNS_DELAY) ? (1 + choose(FAULT, 40)) * 100 * MS : 0);
    int copies = fault(F_DNS_DUP) ? 2 : 1;
    for (int i = 0; i < copies; i++)
        at(t + i * 1 * MS, [ws, from, dst, d] {
            g_net.udp(from.ip, from.port, dst.ip, dst.port, d, [ws, dst](std::string rep) {
                if (fault(F_DNS_LOSS)) return;
                uint64_t t2 = now() + g_net.latency + (fault(F_DNS_DELAY) ? (1 + choose(FAULT, 40)) * 100 * MS : 0);
                int c2 = fault(F_DNS_DUP) ? 2 : 1;
                for (int j = 0; j < c2; j++) at(t2 + j * 2 * MS, [ws, dst, rep] { SockP q = ws.lock(); if (q && !q->closed) { q->dgrams.push_back({ dst, rep }); q->notify(POLLIN); } });
            });
        });
    return (ssize_t)n;
}
ssize_t __wrap_send(int fd, const void *p, size_t n, int fl)
{
    point("send");
    SockP s = sock(fd); if (!s) return -1;
    if (s->type == SOCK_DGRAM) return udp_send(s, s->remote, p, n);
    ssize_t r = s->write(p, n);
    if (r == -2) { if (!(fl & MSG_NOSIGNAL)) sigpipe_raise(); errno = EPIPE; r = -1; }
    ev("send", fd, r, r < 0 ? errno : 0);
    return r;
}
ssize_t __wrap_sendto(int fd, const void *p, size_t n, int fl, const struct sockaddr *sa, socklen_t)
{
    SockP s = sock(fd); if (!s) return -1;
    if (s->type == SOCK_DGRAM) { point("sendto"); return udp_send(s, sa ? from_sa(sa) : s->remote, p, n); }
    return __wrap_send(fd, p, n, fl);
}
int __wrap_shutdown(int fd, int how)
{
    point("shutdown");
    SockP s = sock(fd); if (!s) return -1;
    ev("shutdown", fd, how, s->st);
    if (s->st != S_CONN) { errno = ENOTCONN; return -1; }
    if (how == SHUT_RD || how == SHUT_RDWR) s->shut_rd = true;
    if ((how == SHUT_WR || how == SHUT_RDWR) && !s->fin_sent) {
        s->fin_sent = true;
        SockP p = s->peer.lock();
        uint64_t t = seg_time(s.get());
        if (p) at(t, [p] { if (p->st == S_CONN) { p->fin_rcvd = true; p->notify(POLLIN | POLLRDHUP | (p->fin_sent ? POLLHUP : 0)); } });
        s->notify(POLLOUT | (s->fin_rcvd ? POLLHUP : 0));
    }
    return 0;
}
int __wrap_getsockopt(int fd, int lvl, int opt, void *v, socklen_t *len)
{
    SockP s = sock(fd); if (!s) return -1;
    if (lvl == SOL_SOCKET && opt == SO_ERROR) { *(int *)v = s->so_error; s->so_error = 0; *len = sizeof(int); return 0; }
    memset(v, 0, *len); return 0;
}
int __wrap_setsockopt(int fd, int, int, const void *, socklen_t) { SockP s = sock(fd); return s ? 0 : -1; }
int __wrap_getsockname(int fd, struct sockaddr *sa, socklen_t *len) { SockP s = sock(fd); if (!s) return -1; Addr a = s->local; if (a.ip.empty()) { a.fam = s->fam; a.ip = s->fam == AF_INET6 ? "::" : "0.0.0.0"; } to_sa(a, sa, len); return 0; }
int __wrap_getpeername(int fd, struct sockaddr *sa, socklen_t *len) { SockP s = sock(fd); if (!s) return -1; if (s->st != S_CONN) { errno = ENOTCONN; return -1; } to_sa(s->remote, sa, len); return 0; }

/* ---- generic descriptor calls ---------------------------------------------------------------------- */
int __wrap_pipe(int fds[2]) { point("pipe"); return do_pipe(fds, 0); }
int __wrap_pipe2(int fds[2], int fl) { point("pipe"); return do_pipe(fds, fl); }
ssize_t __wrap_read(int fd, void *p, size_t n)
{
    point("read");
    FGET(fd);
    ssize_t r = f->read(p, n);
    ev("read", fd, r, r < 0 ? errno : 0);
    return r;
}
ssize_t __wrap_write(int fd, const void *p, size_t n)
{
    if (fd <= 2 && proc() == mainp) { logf("[out] %.*s", (int)n, (const char *)p); return (ssize_t)n; }
    point("write");
    FGET(fd);
    ssize_t r = f->write(p, n);
    if (r == -2) { sigpipe_raise(); errno = EPIPE; r = -1; }
    ev("write", fd, r, r < 0 ? errno : 0);
    return r;
}
int __wrap_close(int fd)
{
    point("close");
    Proc *p = proc();
    auto it = p->fds.find(fd);
    if (it == p->fds.end()) {
        if (fd <= 2 && fd >= 0) return 0;
        if (running && p == mainp && fd >= 0) fail("close-of-unopened-fd", "close() of descriptor %d which is not open (double close)", fd);
        errno = EBADF; return -1;
    }
    FileP f = it->second;
    p->fds.erase(it);
    ev("close", fd);
    file_put(f);
    return 0;
}
int __wrap_dup2(int o, int n)
{
    Proc *p = proc();
    FGET(o);
    if (o == n) return n;
    if (p == mainp && n <= 2) return n;
    if (p->fds.count(n)) { FileP x = p->fds[n]; p->fds.erase(n); file_put(x); }
    p->fds[n] = f; f->nfds++; p->ce.erase(n);
    return n;
}
int sim_fs_fcntl(FileP f, int cmd, void *arg);
int __wrap_fcntl(int fd, int cmd, long arg)
{
    FGET(fd);
    switch (cmd) {
        case F_GETFL: return f->flags;
        case F_SETFL: f->flags = (f->flags & O_ACCMODE) | ((int)arg & (O_NONBLOCK | O_APPEND)); return 0;
        case F_GETFD: return proc()->ce.count(fd) ? FD_CLOEXEC : 0;
        case F_SETFD: if (arg & FD_CLOEXEC) proc()->ce.insert(fd); else proc()->ce.erase(fd); return 0;
        case F_SETLK: case F_GETLK: case F_SETLKW: return sim_fs_fcntl(f, cmd, (void *)arg);
        default: return 0;
    }
}
int __wrap_fcntl64(int fd, int cmd, long arg) { return __wrap_fcntl(fd, cmd, arg); }
int __wrap_ioctl(int fd, unsigned long req, void *arg)
{
    FGET(fd);
    if (req == FIONREAD) { *(int *)arg = 0; return 0; }
    if (req == FIONBIO) { if (*(int *)arg) f->flags |= O_NONBLOCK; else f->flags &= ~O_NONBLOCK; return 0; }
    errno = ENOTTY; return -1;
}

/* ---- multiplexing ------------------------------------------------------------------------------------ */
int __wrap_epoll_create1(int fl) { point("epoll_create"); return fd_alloc(std::make_shared<Epoll>(), fl & EPOLL_CLOEXEC); }
int __wrap_epoll_create(int) { return __wrap_epoll_create1(0); }
int __wrap_epoll_ctl(int efd, int op, int fd, struct epoll_event *e)
{
    point("epoll_ctl");
    std::shared_ptr<Epoll> ep = std::dynamic_pointer_cast<Epoll>(fd_get(efd));
    if (!ep) { errno = EBADF; return -1; }
    FileP f = fd_get(fd);
    if (!f) { errno = EBADF; return -1; }
    EpollItem *it = NULL;
    for (auto i : ep->items) if (i->f == f.get() && i->fd == fd) it = i;
    ev("epoll_ctl", op, fd, e ? (int64_t)e->events : 0);
    if (op == EPOLL_CTL_DEL) { if (!it) { errno = ENOENT; return -1; } ep->drop(it); ep->items.erase(std::remove(ep->items.begin(), ep->items.end(), it), ep->items.end()); delete it; return 0; }
    if (op == EPOLL_CTL_ADD) {
        if (it) { errno = EEXIST; return -1; }
        it = new EpollItem; it->ep = ep.get(); it->f = f.get(); it->fd = fd; it->armed = false; it->seq = 0;
        ep->items.push_back(it); f->watchers.push_back(it);
    } else if (!it) { errno = ENOENT; return -1; }
    it->events = e->events; it->data = e->data;
    if (f->ready() & (it->events | POLLERR | POLLHUP)) ep->arm(it);
    io_changed();
    return 0;
}
int __wrap_epoll_wait(int efd, struct epoll_event *out, int max, int tmo)
{
    point("epoll_wait");
    std::shared_ptr<Epoll> ep = std::dynamic_pointer_cast<Epoll>(fd_get(efd));
    if (!ep) { errno = EBADF; return -1; }
    if (!ep->any() && tmo != 0) {
        if (fault(F_EINTR)) { sleep_ns(10 * US); errno = EINTR; return -1; }
        Epoll *e = ep.get();
        io_block([e] { return e->any(); }, "epoll_wait", tmo < 0 ? NEVER : now() + (uint64_t)tmo * MS);
    } else if (tmo == 0 && !ep->any()) yield_hint();
    int n = 0;
    std::deque<EpollItem *> keep;
    while (!ep->rdy.empty() && n < max) {
        EpollItem *i = ep->rdy.front(); ep->rdy.pop_front(); i->armed = false;
        short r = i->f->ready() & (i->events | POLLERR | POLLHUP);
        if (!r) continue;
        out[n].events = (uint32_t)(unsigned short)r; out[n].data = i->data; n++;
        if (!(i->events & EPOLLET)) keep.push_back(i);
    }
    for (auto i : keep) { i->armed = true; ep->rdy.push_back(i); }
    ev("epoll_wait", efd, n, tmo);
    return n;
}
int __wrap_poll(struct pollfd *fds, nfds_t nfds, int tmo)
{
    point("poll");
    std::vector<std::pair<struct pollfd *, FileP>> v;
    for (nfds_t i = 0; i < nfds; i++) v.push_back({ &fds[i], fds[i].fd < 0 ? FileP() : fd_get(fds[i].fd) });
    auto scan = [&v]() -> int {
        int n = 0;
        for (auto &e : v) {
            e.first->revents = 0;
            if (e.first->fd < 0) continue;
            if (!e.second || e.second->nfds == 0) e.first->revents = POLLNVAL;
            else e.first->revents = e.second->ready() & (e.first->events | POLLERR | POLLHUP);
            if (e.first->revents) n++;
        }
        return n;
    };
    int n = scan();
    if (n == 0) {
        if (tmo == 0) yield_hint();
        else {
            if (fault(F_EINTR)) { sleep_ns(10 * US); errno = EINTR; return -1; }
            io_block([&] { for (auto &e : v) if (e.first->fd >= 0 && (!e.second || (e.second->ready() & (e.first->events | POLLERR | POLLHUP)))) return true; return false; },
                     "poll", tmo < 0 ? NEVER : now() + (uint64_t)tmo * MS);
        }
        n = scan();
    }
    if (nfds) ev("poll", (int64_t)nfds, n, tmo);
    if (verbose()) for (auto &e : v) if (e.first->revents) logf("  fd %d events %x revents %x", e.first->fd, e.first->events, e.first->revents);
    return n;
}
int __wrap_select(int nfds, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv)
{
    point("select");
    struct S { int fd; FileP f; bool r, w; };
    std::vector<S> v;
    for (int i = 0; i < nfds; i++) { bool a = r && FD_ISSET(i, r), b = w && FD_ISSET(i, w); if (a || b) v.push_back({ i, fd_get(i), a, b }); }
    auto rdy = [&v]() { for (auto &s : v) { short x = s.f ? s.f->ready() : POLLNVAL; if ((s.r && (x & (POLLIN | POLLHUP | POLLERR | POLLNVAL))) || (s.w && (x & (POLLOUT | POLLERR | POLLNVAL)))) return true; } return false; };
    if (!rdy()) {
        if (tv && tv->tv_sec == 0 && tv->tv_usec == 0) yield_hint();
        else {
            if (fault(F_EINTR)) { errno = EINTR; return -1; }
            io_block(rdy, "select", tv ? now() + (uint64_t)tv->tv_sec * SEC + (uint64_t)tv->tv_usec * US : NEVER);
        }
    }
    int n = 0;
    for (auto &s : v) {
        short x = s.f ? s.f->ready() : POLLNVAL;
        bool a = s.r && (x & (POLLIN | POLLHUP | POLLERR | POLLNVAL)), b = s.w && (x & (POLLOUT | POLLERR | POLLNVAL));
        if (s.r) { if (a) n++; else FD_CLR(s.fd, r); }
        if (s.w) { if (b) n++; else FD_CLR(s.fd, w); }
    }
    if (e) FD_ZERO(e);
    return n;
}

/* ---- processes ------------------------------------------------------------------------------------------ */
/* fork() is emulated: the child branch runs first, on the caller's stack, against a copy of the descriptor table, until it
 * calls exec/exit; then the stack is restored and fork() returns again in the parent. */
struct ForkCtx { void *regs[8]; char *copy; char *lo; size_t len; Proc *child; Fiber *f; };
static ForkCtx *g_fork;      /* only one child branch executes at a time (preemption is disabled) */
int  sim_fork_save(void **regs);
void sim_fork_resume(void **regs) __attribute__((noreturn));
}
asm(R"(
    .text
    .globl sim_fork_save
sim_fork_save:
    movq (%rsp), %rax
    movq %rax, 0(%rdi)
    leaq 8(%rsp), %rax
    movq %rax, 8(%rdi)
    movq %rbx, 16(%rdi)
    movq %rbp, 24(%rdi)
    movq %r12, 32(%rdi)
    movq %r13, 40(%rdi)
    movq %r14, 48(%rdi)
    movq %r15, 56(%rdi)
    xorl %eax, %eax
    ret
    .globl sim_fork_resume
sim_fork_resume:
    movq 16(%rdi), %rbx
    movq 24(%rdi), %rbp
    movq 32(%rdi), %r12
    movq 40(%rdi), %r13
    movq 48(%rdi), %r14
    movq 56(%rdi), %r15
    movq 8(%rdi), %rsp
    movq 0(%rdi), %rcx
    movl $1, %eax
    jmpq *%rcx
)");
static std::map<std::string, Program> *g_programs;
namespace sim {
void program_register(const std::string &path, Program p) { if (!g_programs) g_programs = new std::map<std::string, Program>; (*g_programs)[path] = p; fs_write_file(path, "#!sim", 0755); }
bool program_exists(const std::string &p) { return g_programs && g_programs->count(p); }
static void proc_exit(Proc *p, int status)
{
    if (p->exited) return;
    p->exited = true; p->status = status;
    g_pstats.exits++;
    auto fds = p->fds; p->fds.clear();
    for (auto &e : fds) file_put(e.second);
    ev("proc_exit", p->pid, status);
    wake_all(p); wake_all(procs);
    io_changed();
}
ssize_t ProcCtx::in(void *b, size_t n) { FileP f = fd_get(0); if (!f || killed()) return -1; point("prog-read"); ssize_t r; do { r = f->read(b, n); } while (r < 0 && errno == EINTR && !killed()); return killed() ? -1 : r; }
ssize_t ProcCtx::out(int fd, const void *b, size_t n)
{
    size_t o = 0;
    while (o < n) { FileP f = fd_get(fd); if (!f || killed()) return -1; point("prog-write"); ssize_t r = f->write((const char *)b + o, n - o); if (r <= 0) { return -1; } o += (size_t)r; }
    return (ssize_t)o;
}
size_t ProcCtx::inherited() { size_t n = 0; for (auto &e : proc()->fds) if (e.first > 2) n++; return n; }
void ProcCtx::close_fd(int fd) { Proc *p = proc(); auto it = p->fds.find(fd); if (it != p->fds.end()) { FileP f = it->second; p->fds.erase(it); file_put(f); } }
bool in_main_proc() { return !cur || !cur->proc || cur->proc == mainp; }
bool ProcCtx::killed() { return proc()->killed; }
}
extern "C" {
static __attribute__((no_sanitize("address"))) void raw_copy(char *d, const char *s, size_t n) { for (size_t i = 0; i < n; i++) ((volatile char *)d)[i] = s[i]; }
static void child_done(int child_ok_status, const std::string *path, std::vector<std::string> *argv, std::vector<std::string> *env)
{
    ForkCtx *c = g_fork;
    Proc *ch = c->child;
    if (path) {
        g_pstats.execs++;
        Program pg = (*g_programs)[*path];
        ProcCtx ctx; ctx.path = *path; ctx.argv = *argv; if (env) ctx.env = *env; ctx.pid = ch->pid;
        Fiber *f = spawn("prog", [pg, ctx, ch]() mutable { int rc = pg(ctx); if (!ch->exited) proc_exit(ch, rc < 0 ? (-rc & 0x7f) : (rc & 0xff) << 8); });
        f->proc = ch; ch->fiber = f;
    } else proc_exit(ch, (child_ok_status & 0xff) << 8);
    c->f->proc = ch->parent;
    g_fork = NULL;
    no_preempt(-1);
}
static __attribute__((noreturn, no_sanitize("address"))) void child_return(ForkCtx *c)
{
    /* the frames below us are dead; restore the stack image of the moment of fork and return to it */
    __asan_unpoison_memory_region((void *)((char *)__builtin_frame_address(0) - 65536 > cur->stack ? (char *)__builtin_frame_address(0) - 65536 : cur->stack), (size_t)((char *)c->regs[1] - ((char *)__builtin_frame_address(0) - 65536 > cur->stack ? (char *)__builtin_frame_address(0) - 65536 : cur->stack)));
    raw_copy(c->lo, c->copy, c->len);
    sim_fork_resume(c->regs);
}
pid_t __attribute__((noinline, no_sanitize("address"))) __wrap_fork(void)
{
    point("fork");
    if (fault(F_FORK_FAIL)) { errno = EAGAIN; return -1; }
    if (!cur->stack) fail("harness-error", "fork from the main fiber is not supported");
    ForkCtx *volatile c = new ForkCtx;
    Proc *ch = new Proc;
    g_pstats.forks++;
    ch->pid = g_pid++; ch->parent = cur->proc; ch->exited = ch->reaped = ch->killed = false; ch->status = 0; ch->base = 100; ch->fiber = NULL;
    for (auto &e : proc()->fds) { ch->fds[e.first] = e.second; e.second->nfds++; }
    ch->ce = proc()->ce;
    procs->push_back(ch);
    int pid = ch->pid;
    volatile int vpid = pid;
    c->child = ch; c->f = cur;
    if (sim_fork_save(c->regs) == 0) {
        c->lo = (char *)c->regs[1];
        c->len = (size_t)(cur->stack + cur->stack_size - c->lo);
        c->copy = (char *)malloc(c->len);
        raw_copy(c->copy, c->lo, c->len);
        no_preempt(1);
        g_fork = c;
        cur->proc = ch;
        return 0;
    }
    free(c->copy);
    delete c;
    ev("fork", vpid);
    point("forked");
    return vpid;
}
static int do_exec(const char *path, char *const argv[], char *const env[])
{
    std::string p = path;
    if (!program_exists(p) && p.find('/') == std::string::npos && program_exists("/bin/" + p)) p = "/bin/" + p;
    if (!program_exists(p)) { if (fs_exists(p)) errno = (fs_mode(p) & 0111) ? ENOEXEC : EACCES; else errno = ENOENT; return -1; }
    if (!(fs_mode(p) & 0111)) { errno = EACCES; return -1; }
    ForkCtx *c = g_fork;
    {
        std::vector<std::string> a, e;
        for (int i = 0; argv && argv[i]; i++) a.push_back(argv[i]);
        for (int i = 0; env && env[i]; i++) e.push_back(env[i]);
        std::vector<int> cl; for (auto &x : c->child->fds) if (c->child->ce.count(x.first)) cl.push_back(x.first);
        for (int fd : cl) { FileP f = c->child->fds[fd]; c->child->fds.erase(fd); file_put(f); }
        child_done(0, &p, &a, &e);
    }
    child_return(c);
}
int __wrap_execve(const char *p, char *const a[], char *const e[]) { return do_exec(p, a, e); }
int __wrap_execv(const char *p, char *const a[]) { return do_exec(p, a, NULL); }
int __wrap_execvp(const char *p, char *const a[]) { return do_exec(p, a, NULL); }

void __wrap_exit(int rc)
{
    if (g_fork && running) { ForkCtx *c = g_fork; child_done(rc, NULL, NULL, NULL); child_return(c); }
    if (running) fail("exit-called", "the library called exit(%d)", rc);
    _exit(rc); __builtin_unreachable();
}
void __wrap__exit(int rc) { __wrap_exit(rc); }
static void reap(Proc *p) { p->reaped = true; }
pid_t __wrap_waitpid(pid_t pid, int *st, int opt)
{
    point("waitpid");
    for (Proc *p : *procs) if (p->pid == pid && p->parent == proc()) {
        if (p->reaped) break;
        if (!p->exited) {
            if (opt & WNOHANG) { yield_hint(); if (!p->exited) return 0; }
            else { if (fault(F_EINTR)) { errno = EINTR; return -1; } while (!p->exited) block(p, "waitpid"); }
        }
        if (p->reaped) break;
        if (st) *st = p->status;
        reap(p);
        return pid;
    }
    errno = ECHILD; return -1;
}
int __wrap_waitid(idtype_t type, id_t id, siginfo_t *si, int opt)
{
    point("waitid");
    for (Proc *p : *procs) if (type == P_PID && p->pid == (pid_t)id && p->parent == proc()) {
        if (p->reaped) break;
        if (!p->exited) {
            if (opt & WNOHANG) { yield_hint(); if (!p->exited) { if (si) memset(si, 0, sizeof *si); return 0; } }
            else { if (fault(F_EINTR)) { errno = EINTR; return -1; } while (!p->exited) block(p, "waitid"); }
        }
        if (p->reaped) break;
        if (si) { memset(si, 0, sizeof *si); si->si_pid = p->pid; si->si_signo = SIGCHLD; if (WIFEXITED(p->status)) { si->si_code = CLD_EXITED; si->si_status = WEXITSTATUS(p->status); } else { si->si_code = CLD_KILLED; si->si_status = WTERMSIG(p->status); } }
        if (!(opt & WNOWAIT)) reap(p);
        return 0;
    }
    errno = ECHILD; return -1;
}
int __wrap_kill(pid_t pid, int sig)
{
    point("kill");
    ev("kill", pid, sig);
    if (pid <= 0 && sig) fail("kill-process-group", "kill(%d, %d) would signal the caller's whole process group", pid, sig);
    if (pid == mainp->pid) { if (sig == SIGKILL || sig == SIGTERM) fail("kill-self", "the library killed its own process"); return 0; }
    for (Proc *p : *procs) if (p->pid == pid) {
        if (p->reaped) { fail("kill-reaped-pid", "kill() of pid %d which was already reaped (may hit an unrelated process)", pid); }
        g_pstats.kills++;
        if (!p->exited && sig == SIGKILL) { p->killed = true; proc_exit(p, SIGKILL); }
        return 0;
    }
    errno = ESRCH; return -1;
}
pid_t __wrap_getpid(void) { return proc() ? proc()->pid : 4242; }
uid_t __wrap_getuid(void) { return 1000; }
uid_t __wrap_geteuid(void) { return 1000; }

/* ---- names ------------------------------------------------------------------------------------------------- */
int __wrap_gethostname(char *b, size_t n) { snprintf(b, n, "simhost"); return 0; }
struct hostent *__wrap_gethostbyname(const char *) { return NULL; }
int __wrap_getifaddrs(struct ifaddrs **p) { *p = NULL; return 0; }
void __wrap_freeifaddrs(struct ifaddrs *) {}
}
