/* simulated file system: an in-memory tree with an explicit durability model.
 *
 * Namespace operations (create, unlink, rename, mkdir, rmdir, symlink) are journaled in order; the journal is forced out by
 * any fsync.  File data written since the last fsync of that file is "pending".  A crash keeps a prefix of the journal that
 * contains everything forced out, and for every file an arbitrary subset of the pending writes, each whole or torn. */
#include "sim_int.h"
#include "sim_io.h"
#include <errno.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <fcntl.h>
#include <unistd.h>
#include <poll.h>
#include <dirent.h>
#include <utime.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <algorithm>
#include <pwd.h>
#include <grp.h>

namespace sim {
int fd_install(FileP f, bool ce);
FileP fd_get(int fd);

struct PW { int kind; uint64_t off; std::string data; };      /* kind 0 write, 1 truncate to off */
struct Inode {
    uint64_t ino; char type; unsigned mode; unsigned uid = 1000, gid = 1000;
    std::string live, dur; std::vector<PW> pending; bool ever_synced = false;
    std::map<std::string, uint64_t> kids, dkids;
    std::string target;
    int64_t atime, mtime, ctime; uint64_t parent = 0;
    int opens = 0; int links = 1;
    std::map<uint64_t, std::pair<void *, size_t>> maps;
};
struct JOp { uint64_t d1; std::string n1; uint64_t v1; uint64_t d2; std::string n2; uint64_t v2; };
static std::map<uint64_t, Inode *> *ino;
static std::vector<JOp> *journal;
static uint64_t next_ino = 2;
static std::string *cwd;
static uint64_t g_cap = ~0ull;
static size_t g_handles;
static FsCfg g_cfg;
static std::function<std::string()> *g_on_crash;
FsCfg &fs_cfg() { return g_cfg; }
void fs_set_capacity(uint64_t b) { g_cap = b; }
size_t fs_open_handles() { return g_handles; }

static Inode *mk(char type, unsigned mode)
{
    Inode *i = new Inode; i->ino = next_ino++; i->type = type; i->mode = mode; i->atime = i->mtime = i->ctime = wall_ns();
    (*ino)[i->ino] = i;
    return i;
}
static Inode *get(uint64_t n) { auto it = ino->find(n); return it == ino->end() ? NULL : it->second; }
void fs_reset()
{
    ino = new std::map<uint64_t, Inode *>; journal = new std::vector<JOp>; cwd = new std::string("/");
    next_ino = 1; Inode *r = mk('d', 0755); r->parent = r->ino; r->uid = r->gid = 1000;
    for (auto p : { "/etc", "/tmp", "/bin", "/data", "/dev" }) fs_mkdirs(p);
    fs_write_file("/etc/resolv.conf", "nameserver 10.0.0.53\noptions timeout:2 attempts:2\n");
    fs_write_file("/etc/hosts", "127.0.0.1 localhost\n");
    fs_write_file("/etc/nsswitch.conf", "hosts: files dns\n");
}
static uint64_t used() { uint64_t n = 0; for (auto &e : *ino) n += e.second->live.size(); return n; }
static void set_entry(Inode *d, const std::string &n, Inode *c)
{
    auto it = d->kids.find(n);
    if (it != d->kids.end()) { Inode *o = get(it->second); if (o && o != c) o->links--; }
    if (c) d->kids[n] = c->ino; else d->kids.erase(n);
    d->mtime = wall_ns();
}
static void jlog(Inode *d, const std::string &n, uint64_t v) { journal->push_back({ d->ino, n, v, 0, "", 0 }); }
static void apply(const JOp &o)
{
    Inode *d = get(o.d1); if (d) { if (o.v1) d->dkids[o.n1] = o.v1; else d->dkids.erase(o.n1); }
    if (o.d2) { Inode *e = get(o.d2); if (e) { if (o.v2) e->dkids[o.n2] = o.v2; else e->dkids.erase(o.n2); } }
}
static void commit_journal() { for (auto &o : *journal) apply(o); journal->clear(); }
static void gc(Inode *i)
{
    if (!i || i->links > 0 || i->opens > 0) return;
    /* keep the inode if the durable namespace may still reference it */
    if (g_cfg.track_durability) { i->live.clear(); return; }
    for (auto &m : i->maps) munmap(m.second.first, m.second.second);
    ino->erase(i->ino); delete i;
}

/* ---- path walking ------------------------------------------------------------------------------ */
static std::vector<std::string> split(const std::string &p)
{
    std::vector<std::string> v; size_t i = 0;
    while (i < p.size()) { size_t j = p.find('/', i); if (j == std::string::npos) j = p.size(); if (j > i) v.push_back(p.substr(i, j - i)); i = j + 1; }
    return v;
}
/* resolve: returns inode or NULL with errno; *dir/*last describe the final component's place */
static Inode *walk(const std::string &path, bool follow, Inode **dir, std::string *last, int depth = 0, Inode *base = NULL)
{
    if (path.empty()) { errno = ENOENT; return NULL; }
    if (path.size() > 4095) { errno = ENAMETOOLONG; return NULL; }
    if (depth > 40) { errno = ELOOP; return NULL; }
    std::vector<std::string> comp;
    Inode *c;
    if (path[0] == '/') c = get(1);
    else if (base) c = base;
    else { c = walk(*cwd, true, NULL, NULL); if (!c) return NULL; }
    comp = split(path);
    bool trailing = path.size() > 1 && path[path.size() - 1] == '/';
    if (dir) *dir = c;
    if (last) *last = ".";
    if (comp.empty()) return c;
    for (size_t i = 0; i < comp.size(); i++) {
        bool fin = i + 1 == comp.size();
        if (c->type != 'd') { errno = ENOTDIR; return NULL; }
        if (!(c->mode & 0100)) { errno = EACCES; return NULL; }
        if (comp[i].size() > 255) { errno = ENAMETOOLONG; return NULL; }
        if (fin) { if (dir) *dir = c; if (last) *last = comp[i]; }
        if (comp[i] == ".") continue;
        if (comp[i] == "..") { c = get(c->parent); continue; }
        auto it = c->kids.find(comp[i]);
        if (it == c->kids.end()) { errno = ENOENT; return NULL; }
        Inode *n = get(it->second);
        if (n->type == 'l' && (!fin || follow || trailing)) {
            Inode *t = walk(n->target, true, fin ? dir : NULL, fin ? last : NULL, depth + 1, c);
            if (!t) return NULL;
            n = t;
        }
        c = n;
    }
    if (trailing && c->type != 'd') { errno = ENOTDIR; return NULL; }
    return c;
}
static bool isdir_ok(Inode *d) { if (d->type != 'd') { errno = ENOTDIR; return false; } if (!(d->mode & 0200) || !(d->mode & 0100)) { errno = EACCES; return false; } return true; }

/* ---- crash and restart ------------------------------------------------------------------------------ */
void fs_on_crash(std::function<std::string()> f) { g_on_crash = new std::function<std::string()>(f); }
static void put_u64(std::string &s, uint64_t v) { s.append((const char *)&v, 8); }
static void put_str(std::string &s, const std::string &v) { put_u64(s, v.size()); s += v; }
static uint64_t get_u64(const char *&p) { uint64_t v; memcpy(&v, p, 8); p += 8; return v; }
static std::string get_str(const char *&p) { uint64_t n = get_u64(p); std::string s(p, n); p += n; return s; }
/* power loss: reduce the tree to what was durable plus a chosen part of what was not */
void fs_crash()
{
    size_t n = journal->size();
    size_t keep = n - (n ? choose(FAULT, n + 1) : 0);
    for (size_t i = 0; i < keep; i++) apply((*journal)[i]);
    if (keep < n) probe("crash_lost_namespace_ops", n - keep);
    journal->clear();
    for (auto &e : *ino) {
        Inode *i = e.second;
        if (i->type == 'd') { i->kids = i->dkids; continue; }
        if (i->type != 'f') continue;
        std::string d = i->dur;
        uint64_t mode = i->pending.empty() ? 0 : choose(FAULT, 4);      /* 0 all survive, 1 none, 2 prefix, 3 arbitrary subset with tearing */
        size_t pre = mode == 2 ? choose(FAULT, i->pending.size() + 1) : 0, k = 0;
        for (auto &w : i->pending) {
            bool use = mode == 0 || (mode == 2 && k < pre) || (mode == 3 && choose(FAULT, 2) == 0);
            k++;
            if (!use) { shm->faults[F_LOST_WRITE]++; continue; }
            if (w.kind == 1) { d.resize(w.off, '\0'); continue; }
            size_t len = w.data.size();
            if (mode == 3 && len > 512 && choose(FAULT, 4) == 1) { len = 512 * (1 + choose(FAULT, len / 512)); if (len > w.data.size()) len = w.data.size(); if (len < w.data.size()) shm->faults[F_TORN_WRITE]++; }
            if (d.size() < w.off + len) d.resize(w.off + len, '\0');
            d.replace(w.off, len, w.data, 0, len);
        }
        i->live = i->dur = d; i->pending.clear();
    }
}
std::string fs_image()
{
    std::string s; put_u64(s, next_ino);
    /* only reachable inodes */
    std::set<uint64_t> seen; std::vector<uint64_t> q = { 1 };
    while (!q.empty()) { uint64_t k = q.back(); q.pop_back(); if (!seen.insert(k).second) continue; Inode *i = get(k); if (i->type == 'd') for (auto &c : i->kids) if (get(c.second)) q.push_back(c.second); }
    put_u64(s, seen.size());
    for (uint64_t k : seen) {
        Inode *i = get(k);
        put_u64(s, i->ino); put_u64(s, (uint64_t)i->type); put_u64(s, i->mode); put_u64(s, (uint64_t)i->mtime); put_u64(s, i->parent);
        put_str(s, i->live); put_str(s, i->target);
        size_t n = 0; for (auto &c : i->kids) if (seen.count(c.second)) n++;
        put_u64(s, n);
        for (auto &c : i->kids) if (seen.count(c.second)) { put_str(s, c.first); put_u64(s, c.second); }
    }
    return s;
}
void fs_load(const char *p)
{
    ino->clear(); journal->clear();
    next_ino = get_u64(p) + 1000;
    uint64_t n = get_u64(p);
    while (n--) {
        Inode *i = new Inode; i->links = 0;
        i->ino = get_u64(p); i->type = (char)get_u64(p); i->mode = (unsigned)get_u64(p); i->mtime = i->atime = i->ctime = (int64_t)get_u64(p); i->parent = get_u64(p);
        i->live = get_str(p); i->dur = i->live; i->target = get_str(p);
        uint64_t k = get_u64(p);
        while (k--) { std::string nm = get_str(p); i->kids[nm] = get_u64(p); }
        i->dkids = i->kids;
        (*ino)[i->ino] = i;
    }
    for (auto &e : *ino) for (auto &c : e.second->kids) (*ino)[c.second]->links++;
}
static void crash_point()
{
    if (!g_on_crash || !fault_enabled(F_CRASH) || !running) return;
    if (fault(F_CRASH)) fs_crash_now();
}
void fs_crash_now()
{
    std::string o = (*g_on_crash)();
    bool power = choose(FAULT, 3) != 2 && g_cfg.power_loss;        /* 2: only the process dies, the page cache survives */
    ev("crash", power);
    if (power) fs_crash();
    crash_restart(o, fs_image());
}

/* ---- open files -------------------------------------------------------------------------------------- */
struct FsFile : File {
    Inode *i; uint64_t off = 0; bool rd, wr, app;
    FsFile(Inode *n) : i(n) { kind = n->type == 'd' ? "dirfd" : "fsfile"; n->opens++; g_handles++; }
    short ready() override { return POLLIN | POLLOUT | POLLRDNORM | POLLWRNORM; }
    void last_close() override { g_handles--; i->opens--; Inode *x = i; i = NULL; gc(x); }
    ssize_t pread(void *p, size_t n, uint64_t o)
    {
        if (!rd) { errno = EBADF; return -1; }
        if (i->type == 'd') { errno = EISDIR; return -1; }
        if (g_cfg.io_time) sleep_ns(g_cfg.io_time);
        if (fault(F_EINTR)) { errno = EINTR; return -1; }
        if (fault(F_DISK_EIO_READ)) { errno = EIO; return -1; }
        if (o >= i->live.size()) return 0;
        size_t k = std::min<uint64_t>(n, i->live.size() - o);
        if (k > 1 && fault(F_SHORT_READ)) k = 1 + choose(FAULT, k - 1);
        memcpy(p, i->live.data() + o, k);
        return (ssize_t)k;
    }
    ssize_t pwrite(const void *p, size_t n, uint64_t o)
    {
        if (!wr) { errno = EBADF; return -1; }
        crash_point();
        if (g_cfg.io_time) sleep_ns(g_cfg.io_time);
        if (fault(F_EINTR)) { errno = EINTR; return -1; }
        if (fault(F_DISK_EIO_WRITE)) { errno = EIO; return -1; }
        if (fault(F_DISK_FULL)) { errno = ENOSPC; return -1; }
        size_t k = n;
        if (k > 1 && fault(F_SHORT_WRITE)) k = 1 + choose(FAULT, k - 1);
        uint64_t grow = o + k > i->live.size() ? o + k - i->live.size() : 0;
        if (g_cap != ~0ull && grow) {
            uint64_t u = used();
            uint64_t free_b = u >= g_cap ? 0 : g_cap - u;
            if (grow > free_b) {
                uint64_t less = grow - free_b;
                if (less >= k) { shm->faults[F_DISK_FULL]++; errno = ENOSPC; return -1; }
                k -= less;
            }
        }
        if (i->live.size() < o + k) i->live.resize(o + k, '\0');
        i->live.replace(o, k, (const char *)p, k);
        if (g_cfg.track_durability) i->pending.push_back({ 0, o, std::string((const char *)p, k) });
        i->mtime = wall_ns();
        crash_point();
        return (ssize_t)k;
    }
    ssize_t read(void *p, size_t n) override { ssize_t r = pread(p, n, off); if (r > 0) off += r; return r; }
    ssize_t write(const void *p, size_t n) override { uint64_t at = app ? i->live.size() : off; ssize_t r = pwrite(p, n, at); if (r > 0) off = at + (uint64_t)r; return r; }
};
static std::shared_ptr<FsFile> fsf(int fd)
{
    auto f = std::dynamic_pointer_cast<FsFile>(fd_get(fd));
    if (!f) errno = fd_get(fd) ? EINVAL : EBADF;
    return f;
}
extern "C" int sim_fs_fcntl(FileP f, int cmd, void *arg)
{
    struct flock *l = (struct flock *)arg;
    if (cmd == F_GETLK) { l->l_type = F_UNLCK; return 0; }
    if (l->l_type != F_UNLCK && fault(F_LOCK_BUSY)) { errno = EAGAIN; return -1; }
    (void)f;
    return 0;
}

/* ---- world helpers --------------------------------------------------------------------------------------- */
struct Quiet { std::vector<int> x; };
bool fs_mkdirs(const std::string &path)
{
    std::string cur_p;
    for (auto &c : split(path)) {
        cur_p += "/" + c;
        Inode *d; std::string l; Inode *i = walk(cur_p, true, &d, &l);
        if (i) { if (i->type != 'd') return false; continue; }
        Inode *n = mk('d', 0755); n->parent = d->ino; set_entry(d, l, n); d->dkids[l] = n->ino;
    }
    return true;
}
bool fs_write_file(const std::string &path, const std::string &data, unsigned mode)
{
    size_t k = path.rfind('/');
    if (k != std::string::npos && k > 0) fs_mkdirs(path.substr(0, k));
    Inode *d; std::string l; Inode *i = walk(path, true, &d, &l);
    if (!i) { if (errno != ENOENT) return false; i = mk('f', mode); set_entry(d, l, i); d->dkids[l] = i->ino; }
    i->live = i->dur = data; i->pending.clear(); i->mode = mode;
    return true;
}
bool fs_read_file(const std::string &path, std::string *out) { int e = errno; Inode *i = walk(path, true, NULL, NULL); errno = e; if (!i || i->type != 'f') return false; if (out) *out = i->live; return true; }
bool fs_exists(const std::string &path) { int e = errno; Inode *i = walk(path, false, NULL, NULL); errno = e; return i != NULL; }
bool fs_is_dir(const std::string &path) { int e = errno; Inode *i = walk(path, true, NULL, NULL); errno = e; return i && i->type == 'd'; }
bool fs_readlink(const std::string &path, std::string *out) { int e = errno; Inode *i = walk(path, false, NULL, NULL); errno = e; if (!i || i->type != 'l') return false; *out = i->target; return true; }
std::vector<std::string> fs_list(const std::string &dir) { int e = errno; std::vector<std::string> v; Inode *i = walk(dir, true, NULL, NULL); errno = e; if (i) for (auto &c : i->kids) v.push_back(c.first); return v; }
unsigned fs_mode(const std::string &path) { int e = errno; Inode *i = walk(path, true, NULL, NULL); errno = e; return i ? i->mode : 0; }
int64_t fs_mtime(const std::string &path) { int e = errno; Inode *i = walk(path, true, NULL, NULL); errno = e; return i ? i->mtime : 0; }
bool fs_rename(const std::string &a, const std::string &b)
{
    int e = errno; Inode *d1, *d2 = NULL; std::string l1, l2; Inode *i = walk(a, false, &d1, &l1); errno = e; if (!i) return false;
    Inode *j = walk(b, false, &d2, &l2); errno = e; if (!d2 || (j && j->type == 'd') || i == j) return false;
    i->links++; set_entry(d2, l2, i); set_entry(d1, l1, NULL); i->parent = d2->ino; journal->push_back({ d2->ino, l2, i->ino, d1->ino, l1, 0 }); if (j) gc(j);
    return true;
}
bool fs_symlink(const std::string &t, const std::string &path)
{
    Inode *d; std::string l; if (walk(path, false, &d, &l)) return false;
    Inode *n = mk('l', 0777); n->target = t; n->parent = d->ino; set_entry(d, l, n); d->dkids[l] = n->ino; return true;
}
}
using namespace sim;

extern "C" {
int __wrap_open(const char *path, int fl, ...)
{
    unsigned mode = 0644;
    if (fl & O_CREAT) { va_list ap; va_start(ap, fl); mode = va_arg(ap, unsigned); va_end(ap); }
    if (!strcmp(path, "/dev/urandom") || !strcmp(path, "/dev/random")) { errno = ENOENT; return -1; }
    point("open");
    if (fault(F_DISK_OPEN_FAIL)) { static const int e[] = { EMFILE, EACCES, EIO }; errno = e[choose(FAULT, 3)]; return -1; }
    Inode *d = NULL; std::string l;
    Inode *i = walk(path, !(fl & O_NOFOLLOW), &d, &l);
    if (i && (fl & O_CREAT) && (fl & O_EXCL)) { errno = EEXIST; return -1; }
    if (!i) {
        if (errno != ENOENT || !(fl & O_CREAT) || !d) return -1;
        /* parent must be the directory of the last component */
        std::string p = path; std::vector<std::string> c = split(p);
        if (c.empty() || c.back() != l || p[p.size() - 1] == '/') { errno = ENOENT; return -1; }
        if (!isdir_ok(d)) return -1;
        crash_point();
        if (fault(F_DISK_FULL)) { errno = ENOSPC; return -1; }
        i = mk('f', mode & 0777 & ~022u); i->parent = d->ino; set_entry(d, l, i); jlog(d, l, i->ino);
    } else {
        int acc = fl & O_ACCMODE;
        if (i->type == 'l') { errno = ELOOP; return -1; }
        if (i->type == 'd' && acc != O_RDONLY) { errno = EISDIR; return -1; }
        if ((acc != O_WRONLY && !(i->mode & 0400)) || (acc != O_RDONLY && !(i->mode & 0200))) { errno = EACCES; return -1; }
        if ((fl & O_DIRECTORY) && i->type != 'd') { errno = ENOTDIR; return -1; }
        if ((fl & O_TRUNC) && i->type == 'f' && acc != O_RDONLY) { crash_point(); i->live.clear(); if (fs_cfg().track_durability) i->pending.push_back({ 1, 0, "" }); i->mtime = wall_ns(); }
    }
    auto f = std::make_shared<FsFile>(i);
    int acc = fl & O_ACCMODE;
    f->flags = fl & (O_ACCMODE | O_APPEND | O_NONBLOCK); f->rd = acc != O_WRONLY; f->wr = acc != O_RDONLY; f->app = (fl & O_APPEND) != 0;
    int fd = fd_install(f, fl & O_CLOEXEC);
    ev("open", fd, fl);
    if (verbose()) logf("open %s", path);
    return fd;
}
int __wrap_open64(const char *p, int fl, unsigned m) { return __wrap_open(p, fl, m); }
int __wrap_openat(int, const char *, int, ...) { errno = ENOSYS; return -1; }
int __wrap_openat64(int, const char *, int, ...) { errno = ENOSYS; return -1; }
int __wrap_creat(const char *p, unsigned m) { return __wrap_open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
ssize_t __wrap_pread(int fd, void *b, size_t n, off_t o) { point("pread"); auto f = fsf(fd); if (!f) return -1; ssize_t r = f->pread(b, n, (uint64_t)o); ev("pread", fd, o, r); return r; }
ssize_t __wrap_pread64(int fd, void *b, size_t n, off_t o) { return __wrap_pread(fd, b, n, o); }
ssize_t __wrap_pwrite(int fd, const void *b, size_t n, off_t o) { point("pwrite"); auto f = fsf(fd); if (!f) return -1; ssize_t r = f->pwrite(b, n, (uint64_t)o); ev("pwrite", fd, o, r); return r; }
ssize_t __wrap_pwrite64(int fd, const void *b, size_t n, off_t o) { return __wrap_pwrite(fd, b, n, o); }
off_t __wrap_lseek(int fd, off_t o, int wh)
{
    auto f = fsf(fd); if (!f) { if (errno == EINVAL) errno = ESPIPE; return -1; }
    off_t b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (off_t)f->off : (off_t)f->i->live.size();
    if (b + o < 0) { errno = EINVAL; return -1; }
    f->off = (uint64_t)(b + o);
    return (off_t)f->off;
}
off_t __wrap_lseek64(int fd, off_t o, int wh) { return __wrap_lseek(fd, o, wh); }
int __wrap_ftruncate(int fd, off_t n)
{
    point("ftruncate"); auto f = fsf(fd); if (!f) return -1; if (!f->wr) { errno = EINVAL; return -1; }
    if (fault(F_DISK_EIO_WRITE)) { errno = EIO; return -1; }
    f->i->live.resize((size_t)n, '\0'); if (fs_cfg().track_durability) f->i->pending.push_back({ 1, (uint64_t)n, "" });
    ev("ftruncate", fd, n);
    return 0;
}
int __wrap_ftruncate64(int fd, off_t n) { return __wrap_ftruncate(fd, n); }
int __wrap_fsync(int fd)
{
    point("fsync");
    auto f = fsf(fd); if (!f) return -1;
    if (fs_cfg().io_time) sleep_ns(fs_cfg().io_time * 4);
    if (fault(F_DISK_FSYNC_FAIL)) { errno = EIO; return -1; }
    commit_journal();
    f->i->dur = f->i->live; f->i->pending.clear();
    ev("fsync", fd);
    return 0;
}
int __wrap_fdatasync(int fd) { return __wrap_fsync(fd); }
static int fill(Inode *i, struct stat *s)
{
    memset(s, 0, sizeof *s);
    s->st_dev = 77; s->st_ino = i->ino; s->st_uid = i->uid; s->st_gid = i->gid; s->st_nlink = i->links > 0 ? i->links : 0;
    s->st_mode = i->mode | (i->type == 'd' ? S_IFDIR : i->type == 'l' ? S_IFLNK : S_IFREG);
    s->st_size = i->type == 'l' ? i->target.size() : i->live.size(); s->st_blksize = 4096; s->st_blocks = (s->st_size + 511) / 512;
    s->st_atim.tv_sec = i->atime / 1000000000; s->st_mtim.tv_sec = i->mtime / 1000000000; s->st_ctim.tv_sec = i->ctime / 1000000000;
    return 0;
}
int __wrap_stat(const char *p, struct stat *s) { point("stat"); Inode *i = walk(p, true, NULL, NULL); return i ? fill(i, s) : -1; }
int __wrap_lstat(const char *p, struct stat *s) { point("lstat"); Inode *i = walk(p, false, NULL, NULL); return i ? fill(i, s) : -1; }
int __wrap_fstat(int fd, struct stat *s) { auto f = fsf(fd); if (!f) { if (errno == EINVAL) { memset(s, 0, sizeof *s); s->st_mode = S_IFSOCK; return 0; } return -1; } return fill(f->i, s); }
int __wrap_stat64(const char *p, struct stat *s) { return __wrap_stat(p, s); }
int __wrap_lstat64(const char *p, struct stat *s) { return __wrap_lstat(p, s); }
int __wrap_fstat64(int fd, struct stat *s) { return __wrap_fstat(fd, s); }
int __wrap_access(const char *p, int m)
{
    point("access");
    Inode *i = walk(p, true, NULL, NULL); if (!i) return -1;
    if (((m & R_OK) && !(i->mode & 0400)) || ((m & W_OK) && !(i->mode & 0200)) || ((m & X_OK) && !(i->mode & 0100))) { errno = EACCES; return -1; }
    return 0;
}
int __wrap_mkdir(const char *p, mode_t m)
{
    point("mkdir");
    Inode *d = NULL; std::string l; Inode *i = walk(p, false, &d, &l);
    if (i) { errno = EEXIST; return -1; }
    if (errno != ENOENT || !d) return -1;
    auto c = split(p); if (c.empty() || c.back() != l) { errno = ENOENT; return -1; }
    if (!isdir_ok(d)) return -1;
    if (d->kids.count(l)) { errno = EEXIST; return -1; }
    if (fault(F_MKDIR_FAIL)) { errno = choose(FAULT, 2) ? ENOSPC : EACCES; return -1; }
    crash_point();
    Inode *n = mk('d', m & 0777 & ~022u); n->parent = d->ino; set_entry(d, l, n); jlog(d, l, n->ino);
    if (verbose()) logf("mkdir %s", p);
    ev("mkdir");
    return 0;
}
int __wrap_rmdir(const char *p)
{
    point("rmdir");
    Inode *d; std::string l; Inode *i = walk(p, false, &d, &l); if (!i) return -1;
    if (i->type != 'd') { errno = ENOTDIR; return -1; }
    if (!i->kids.empty()) { errno = ENOTEMPTY; return -1; }
    if (!isdir_ok(d)) return -1;
    if (fault(F_DISK_UNLINK_FAIL)) { errno = EACCES; return -1; }
    crash_point();
    set_entry(d, l, NULL); jlog(d, l, 0); if (verbose()) logf("rmdir %s", p); ev("rmdir"); gc(i);
    return 0;
}
int __wrap_unlink(const char *p)
{
    point("unlink");
    Inode *d; std::string l; Inode *i = walk(p, false, &d, &l); if (!i) return -1;
    if (i->type == 'd') { errno = EISDIR; return -1; }
    if (!isdir_ok(d)) return -1;
    if (fault(F_DISK_UNLINK_FAIL)) { errno = choose(FAULT, 2) ? EACCES : EIO; return -1; }
    crash_point();
    set_entry(d, l, NULL); jlog(d, l, 0); if (verbose()) logf("unlink %s", p); ev("unlink"); gc(i);
    return 0;
}
int __wrap_rename(const char *a, const char *b)
{
    point("rename");
    Inode *d1, *d2 = NULL; std::string l1, l2; Inode *i = walk(a, false, &d1, &l1); if (!i) return -1;
    Inode *j = walk(b, false, &d2, &l2);
    if (auto m = fs_cfg().mount) if (!strncmp(a, m, strlen(m)) != !strncmp(b, m, strlen(m))) { errno = EXDEV; return -1; }
    if (!j && (errno != ENOENT || !d2)) return -1;
    if (!j) { auto c = split(b); if (c.empty() || c.back() != l2) { errno = ENOENT; return -1; } }
    if (!isdir_ok(d1) || !isdir_ok(d2)) return -1;
    if (i == j) return 0;
    if (j && j->type == 'd' && i->type != 'd') { errno = EISDIR; return -1; }
    if (j && j->type != 'd' && i->type == 'd') { errno = ENOTDIR; return -1; }
    if (j && j->type == 'd' && !j->kids.empty()) { errno = ENOTEMPTY; return -1; }
    for (Inode *x = d2; ; x = get(x->parent)) { if (x == i) { errno = EINVAL; return -1; } if (x->ino == 1) break; }
    if (fault(F_DISK_RENAME_FAIL)) { static const int e[] = { EXDEV, EACCES, EXDEV, EIO }; errno = e[choose(FAULT, 4)]; if (errno == EXDEV && fs_cfg().no_exdev) errno = EPERM; return -1; }
    crash_point();
    i->links++; set_entry(d2, l2, i); set_entry(d1, l1, NULL); i->parent = d2->ino; 
    journal->push_back({ d2->ino, l2, i->ino, d1->ino, l1, 0 });
    if (verbose()) logf("rename %s -> %s", a, b);
    ev("rename");
    if (j) gc(j);
    return 0;
}
int __wrap_symlink(const char *t, const char *p)
{
    point("symlink");
    Inode *d = NULL; std::string l; if (walk(p, false, &d, &l)) { errno = EEXIST; return -1; }
    if (errno != ENOENT || !d || !isdir_ok(d)) return -1;
    auto c = split(p); if (c.empty() || c.back() != l) { errno = ENOENT; return -1; }
    if (fault(F_DISK_OPEN_FAIL)) { errno = EACCES; return -1; }
    crash_point();
    Inode *n = mk('l', 0777); n->target = t; n->parent = d->ino; set_entry(d, l, n); jlog(d, l, n->ino);
    return 0;
}
ssize_t __wrap_readlink(const char *p, char *b, size_t n)
{
    point("readlink");
    Inode *i = walk(p, false, NULL, NULL); if (!i) return -1;
    if (i->type != 'l') { errno = EINVAL; return -1; }
    size_t k = std::min(n, i->target.size()); memcpy(b, i->target.data(), k); return (ssize_t)k;
}
int __wrap_chmod(const char *p, mode_t m) { point("chmod"); Inode *i = walk(p, true, NULL, NULL); if (!i) return -1; i->mode = m & 07777; return 0; }
int __wrap_chown(const char *p, uid_t u, gid_t g) { Inode *i = walk(p, true, NULL, NULL); if (!i) return -1; if (u != (uid_t)-1) i->uid = u; if (g != (gid_t)-1) i->gid = g; return 0; }
int __wrap_fchmod(int fd, mode_t m) { auto f = fsf(fd); if (!f) return -1; f->i->mode = m & 07777; return 0; }
int __wrap_fchown(int fd, uid_t u, gid_t g) { auto f = fsf(fd); if (!f) return -1; if (u != (uid_t)-1) f->i->uid = u; if (g != (gid_t)-1) f->i->gid = g; return 0; }
int __wrap_utime(const char *p, const struct utimbuf *t) { Inode *i = walk(p, true, NULL, NULL); if (!i) return -1; i->mtime = t ? t->modtime * 1000000000ll : wall_ns(); return 0; }
int __wrap_utimes(const char *p, const struct timeval *t) { Inode *i = walk(p, true, NULL, NULL); if (!i) return -1; i->mtime = t ? t[1].tv_sec * 1000000000ll : wall_ns(); return 0; }
char *__wrap_getcwd(char *b, size_t n) { if (cwd->size() + 1 > n) { errno = ERANGE; return NULL; } strcpy(b, cwd->c_str()); return b; }
int __wrap_chdir(const char *p) { Inode *i = walk(p, true, NULL, NULL); if (!i) return -1; if (i->type != 'd') { errno = ENOTDIR; return -1; } std::string s = p[0] == '/' ? p : *cwd + "/" + p; std::string o; for (auto &c : split(s)) if (c != ".") o += "/" + c; *cwd = o.empty() ? "/" : o; return 0; }

struct SimDir { std::vector<std::pair<std::string, uint64_t>> e; size_t i; struct dirent d; };
DIR *__wrap_opendir(const char *p)
{
    point("opendir");
    Inode *i = walk(p, true, NULL, NULL); if (!i) return NULL;
    if (i->type != 'd') { errno = ENOTDIR; return NULL; }
    if (!(i->mode & 0400)) { errno = EACCES; return NULL; }
    if (fault(F_DISK_OPEN_FAIL)) { errno = EMFILE; return NULL; }
    SimDir *d = new SimDir; d->i = 0; g_handles++;
    d->e.push_back({ ".", i->ino }); d->e.push_back({ "..", i->parent });
    for (auto &c : i->kids) d->e.push_back(c);
    if (d->e.size() > 2) std::rotate(d->e.begin(), d->e.begin() + (long)choose(RND, d->e.size()), d->e.end());
    return (DIR *)d;
}
struct dirent *__wrap_readdir(DIR *dp)
{
    SimDir *d = (SimDir *)dp;
    if (fault(F_DISK_EIO_READ)) { errno = EIO; return NULL; }
    if (d->i >= d->e.size()) return NULL;
    memset(&d->d, 0, sizeof d->d);
    d->d.d_ino = d->e[d->i].second; Inode *n = get(d->d.d_ino); d->d.d_type = !n ? DT_UNKNOWN : n->type == 'd' ? DT_DIR : n->type == 'l' ? DT_LNK : DT_REG;
    strncpy(d->d.d_name, d->e[d->i].first.c_str(), sizeof d->d.d_name - 1); d->i++;
    return &d->d;
}
struct dirent *__wrap_readdir64(DIR *dp) { return __wrap_readdir(dp); }
int __wrap_closedir(DIR *dp) { delete (SimDir *)dp; g_handles--; return 0; }

/* memory maps: file-backed maps share one region per (inode, offset) */
void *__wrap_mmap64(void *a, size_t n, int prot, int fl, int fd, off_t o)
{
    if (fd < 100 || !running) return mmap(a, n, prot, fl, fd, o);
    auto f = fsf(fd); if (!f) return MAP_FAILED;
    auto &m = f->i->maps[(uint64_t)o];
    if (m.first && m.second >= n) return m.first;
    void *p = mmap(NULL, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) return p;
    if ((uint64_t)o < f->i->live.size()) memcpy(p, f->i->live.data() + o, std::min<size_t>(n, f->i->live.size() - (size_t)o));
    m = { p, n };
    return p;
}
void *__wrap_mmap(void *a, size_t n, int prot, int fl, int fd, off_t o) { return __wrap_mmap64(a, n, prot, fl, fd, o); }
int __wrap_munmap(void *p, size_t n)
{
    if (ino) for (auto &e : *ino) for (auto &m : e.second->maps) if (m.second.first == p) return 0;      /* stays mapped with the inode */
    return munmap(p, n);
}
void *__wrap_mremap(void *, size_t, size_t, int, ...) { errno = ENOSYS; return MAP_FAILED; }

FILE *__wrap_fopen(const char *p, const char *mode)
{
    if (!running || mode[0] != 'r') { errno = EACCES; return NULL; }
    Inode *i = walk(p, true, NULL, NULL);
    if (!i || i->type != 'f') { errno = ENOENT; return NULL; }
    std::string *keep = new std::string(i->live);
    if (keep->empty()) *keep = "\n";
    return fmemopen((void *)keep->data(), keep->size(), "r");
}
FILE *__wrap_fopen64(const char *p, const char *m) { return __wrap_fopen(p, m); }
int __wrap_getpwnam_r(const char *n, struct passwd *pw, char *b, size_t bl, struct passwd **r)
{
    *r = NULL; if (strcmp(n, "simuser") || bl < 64) return 0;
    memset(pw, 0, sizeof *pw); strcpy(b, "simuser"); pw->pw_name = b; pw->pw_dir = b + 16; strcpy(b + 16, "/data"); pw->pw_shell = b + 32; strcpy(b + 32, "/bin/sh"); pw->pw_passwd = b + 48; b[48] = 0; pw->pw_gecos = b + 48; pw->pw_uid = pw->pw_gid = 1000; *r = pw; return 0;
}
int __wrap_getpwuid_r(uid_t u, struct passwd *pw, char *b, size_t bl, struct passwd **r) { *r = NULL; if (u != 1000) return 0; return __wrap_getpwnam_r("simuser", pw, b, bl, r); }
int __wrap_getgrnam_r(const char *, struct group *, char *, size_t, struct group **r) { *r = NULL; return 0; }
int __wrap_getgrgid_r(gid_t g, struct group *gr, char *b, size_t bl, struct group **r)
{
    *r = NULL; if (g != 1000 || bl < 64) return 0;
    memset(gr, 0, sizeof *gr); strcpy(b, "simgrp"); gr->gr_name = b; gr->gr_gid = 1000; *r = gr; return 0;
}
}
