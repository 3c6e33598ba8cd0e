/* F01: files against a model, with faults and crashes.  F02: copy, move and delete of files and trees. */
#include "w_common.h"
#include <mstdlib/base/m_fs.h>

static const std::string ZEROS;
static std::string tx(const std::string &s) { char b[40]; snprintf(b, sizeof b, "%zu:%016llx", s.size(), (unsigned long long)hash_bytes(s.data(), s.size())); return b; }

namespace f01 {
struct W1 { uint64_t pos; std::string d; };
struct Rec {                    /* one file */
    std::string path; bool exists = false, maybe_trunc = false;
    std::string base;           /* content with everything known to be handed to the operating system */
    std::vector<W1> pend;       /* accepted afterwards, in order; each may have got there partly only if nothing later did */
    std::string dur; std::vector<char> touched; bool synced = false, dtrunc = false;      /* as of the last successful sync to the device */
};
static std::vector<Rec> *F; static bool g_power, g_prev_power;
static void put(std::string &s, const std::string &v) { uint64_t n = v.size(); s.append((char *)&n, 8); s += v; }
static std::string take(const std::string &s, size_t &o) { uint64_t n; memcpy(&n, s.data() + o, 8); std::string r = s.substr(o + 8, n); o += 8 + n; return r; }
static std::string save()
{
    std::string s; put(s, g_power ? "P" : "p"); put(s, std::to_string(F->size()));
    for (auto &f : *F) { put(s, f.path); put(s, std::string(1, f.exists) + (char)f.maybe_trunc + (char)f.synced + (char)f.dtrunc); put(s, f.base); put(s, std::to_string(f.pend.size())); for (auto &w : f.pend) { put(s, std::to_string(w.pos)); put(s, w.d); } put(s, f.dur); put(s, std::string(f.touched.begin(), f.touched.end())); }
    return s;
}
static void load(const std::string &s)
{
    size_t o = 0; g_prev_power = take(s, o) == "P"; size_t n = std::stoul(take(s, o)); F->clear();
    while (n--) { Rec f; f.path = take(s, o); std::string b = take(s, o); f.exists = b[0]; f.maybe_trunc = b[1]; f.synced = b[2]; f.dtrunc = b[3]; f.base = take(s, o); size_t k = std::stoul(take(s, o)); while (k--) { W1 w; w.pos = std::stoull(take(s, o)); w.d = take(s, o); f.pend.push_back(w); } f.dur = take(s, o); std::string t = take(s, o); f.touched.assign(t.begin(), t.end()); F->push_back(f); }
}
static void apply(std::string &c, uint64_t pos, const char *p, size_t n) { if (!n) return; if (c.size() < pos + n) c.resize(pos + n, '\0'); c.replace(pos, n, p, n); }
static std::string full(const Rec &f) { std::string c = f.base; for (auto &w : f.pend) apply(c, w.pos, w.d.data(), w.d.size()); return c; }
static void settle(Rec &f) { f.base = full(f); f.pend.clear(); }
static void touch(Rec &f, uint64_t pos, size_t n) { if (f.touched.size() < f.dur.size()) f.touched.resize(f.dur.size(), 0); for (size_t i = 0; i < n; i++) if (pos + i < f.touched.size()) f.touched[pos + i] = 1; }
/* the file holds base with the first k bytes of what was accepted since, for some k */
static bool prefix_match(const Rec &f, const std::string &got, std::string *now)
{
    std::string c = f.base; if (c == got) { *now = c; return true; }
    for (auto &w : f.pend) for (size_t k = 0; k < w.d.size(); k++) { apply(c, w.pos + k, &w.d[k], 1); if (c.size() == got.size() && c == got) { *now = c; return true; } }
    return false;
}
static void after_close(Rec &f, bool may_lose, const char *when)
{
    std::string got; SIM_CHECK(fs_read_file(f.path, &got), "file-gone", "%s: %s does not exist", when, f.path.c_str());
    if (!may_lose) { std::string want = full(f); SIM_CHECK(got == want, "content", "%s: the file holds %zu bytes, %zu were written to it (first difference at %zu)", when, got.size(), want.size(), (size_t)(std::mismatch(got.begin(), got.begin() + std::min(got.size(), want.size()), want.begin()).first - got.begin())); settle(f); return; }
    std::string c; SIM_CHECK(prefix_match(f, got, &c), "content", "%s: the %zu bytes in the file are not the written data up to some point", when, got.size());
    f.base = got; f.pend.clear(); probe("file.lost_suffix_at_close");
}
static std::string gen(size_t n) { static unsigned ctr; std::string d(n, 0); ctr++; for (size_t i = 0; i < n; i++) d[i] = (char)(1 + (ctr * 31 + i * 7 + (i >> 8)) % 255); return d; }
static size_t pick_len(size_t bs) { switch (wl(5)) { case 0: return 1 + wl(8); case 1: return bs ? bs : 16; case 2: return bs + 1; case 3: return bs > 1 ? bs - 1 : 3; default: return 1 + wl(300); } }
/* one session on a file: open .. close */
static void session(Rec &f)
{
    bool faulty = any_fault_enabled();
    if (wl(8) == 0) {      /* the whole-file helpers */
        if (wl(2) && f.exists) {
            unsigned char *b = NULL; size_t n = 0, max = wl(3) ? 0 : 1 + wl(400); M_fs_error_t e = M_fs_file_read_bytes(f.path.c_str(), max, &b, &n);
            if (e == M_FS_ERROR_SUCCESS) { SIM_CHECK(!max || f.base.size() <= max, "read-too-big", "%zu bytes read with a limit of %zu", n, max); SIM_CHECK(std::string((char *)b, n) == f.base, "read-bytes", "reading the file gave %zu bytes that are not its %zu", n, f.base.size()); M_free(b); probe("file.read_bytes"); }
            else if (e == M_FS_ERROR_FILE_2BIG) SIM_CHECK(max && f.base.size() > max, "read-2big", "%zu bytes refused with a limit of %zu", f.base.size(), max);
            else SIM_CHECK(faulty, "spurious-error", "reading the file failed with %d", e);
            return;
        }
        bool app = wl(2); std::string d = gen(1 + wl(600)); size_t n = 0;
        bool ex = f.exists;
        f.maybe_trunc = ex && !app; f.exists = true; if (!app) { f.dtrunc = true; }
        Rec old = f; if (!app) { f.base.clear(); }
        f.pend.push_back({ f.base.size(), d }); if (app) touch(f, f.base.size(), d.size());
        M_fs_error_t e = M_fs_file_write_bytes(f.path.c_str(), (const unsigned char *)d.data(), d.size(), app ? M_FS_FILE_MODE_APPEND : M_FS_FILE_MODE_OVERWRITE, &n);
        f.maybe_trunc = false;
        if (e == M_FS_ERROR_SUCCESS) { SIM_CHECK(n == d.size(), "wrote-len", "%zu of %zu bytes reported written with success", n, d.size()); after_close(f, false, "write_bytes"); probe("file.write_bytes"); return; }
        SIM_CHECK(faulty, "spurious-error", "writing the file failed with %d", e);
        std::string got; bool there = fs_read_file(f.path, &got);
        if (n == 0 && there && got == old.base && ex) { f.base = old.base; f.pend.clear(); return; }      /* not even opened */
        if (!there) { SIM_CHECK(!ex && n == 0, "file-gone", "%s vanished", f.path.c_str()); f = old; f.exists = false; return; }
        f.pend[0].d.resize(n); after_close(f, false, "failed write_bytes");
        return;
    }
    bool rd = wl(3) != 0, wr = !rd || wl(2); size_t bs = wl(3) ? (size_t)(1 + wl(wl(2) ? 16 : 400)) : 0; uint32_t mode = 0; bool app = false, ovr = false;
    if (rd) mode |= M_FS_FILE_MODE_READ;
    if (wr) { mode |= M_FS_FILE_MODE_WRITE; app = wl(4) == 0; ovr = wl(4) == 0; if (app) mode |= M_FS_FILE_MODE_APPEND; if (ovr) mode |= M_FS_FILE_MODE_OVERWRITE; }
    if (!wr || wl(4) == 0) mode |= M_FS_FILE_MODE_NOCREATE;
    bool ex = f.exists; std::string old = f.base;
    if (ovr) { f.maybe_trunc = true; f.dtrunc = true; }
    M_fs_file_t *fd = NULL; M_fs_error_t e = M_fs_file_open(&fd, f.path.c_str(), bs, mode, NULL);
    f.maybe_trunc = false;
    if (e != M_FS_ERROR_SUCCESS) {
        SIM_CHECK(fd == NULL, "open-fd", "a failed open returned a file"); SIM_CHECK(faulty || (!ex && (mode & M_FS_FILE_MODE_NOCREATE)), "spurious-error", "open failed with %d", e);
        if (!ex && (mode & M_FS_FILE_MODE_NOCREATE)) SIM_CHECK(!fs_exists(f.path), "nocreate", "the file was created in spite of NOCREATE");
        std::string got; if (ex) SIM_CHECK(fs_read_file(f.path, &got) && got == old, "open-changed", "a failed open changed the file"); else f.exists = fs_exists(f.path);
        return;
    }
    SIM_CHECK(ex || !(mode & M_FS_FILE_MODE_NOCREATE), "nocreate", "a file that does not exist was opened with NOCREATE");
    f.exists = true; if (ovr) { f.base.clear(); }
    uint64_t pos = 0; int nops = 1 + (int)wl(14); bool unsure = false;      /* unsure: a flush failed, the buffer may be ahead of the file */
    while (nops--) {
        std::string cur = full(f);
        switch (wl(8)) {
        case 0: case 1: case 2: if (wr) {      /* write */
            std::string d = gen(pick_len(bs)); size_t n = 0; uint64_t at = app ? cur.size() : pos; bool fb = wl(2);
            f.pend.push_back({ at, d }); touch(f, at, d.size());
            e = M_fs_file_write(fd, (const unsigned char *)d.data(), d.size(), &n, fb ? M_FS_FILE_RW_FULLBUF : M_FS_FILE_RW_NORMAL);
            logf("write %zu at %llu fb %d -> %d n %zu", d.size(), (unsigned long long)at, fb, e, n);
            SIM_CHECK(n <= d.size(), "wrote-len", "%zu of %zu bytes reported written", n, d.size());
            if (e == M_FS_ERROR_SUCCESS) { SIM_CHECK(n > 0, "write-nothing", "a write succeeded with nothing written"); if (fb || !fault_enabled(F_SHORT_WRITE)) SIM_CHECK(n == d.size(), "write-short", "a full write succeeded with %zu of %zu bytes", n, d.size()); }
            else { SIM_CHECK(faulty, "spurious-error", "write failed with %d", e); probe("file.write_failed"); unsure = bs > 0; }
            f.pend.back().d.resize(n); if (!n) f.pend.pop_back();
            if (n) pos = at + n;
            if (!bs) { settle(f); std::string got; fs_read_file(f.path, &got); SIM_CHECK(got == f.base, "content", "after an unbuffered write the file holds %zu bytes, %zu expected", got.size(), f.base.size()); }
            break;
        } /* fallthrough */
        case 3: case 4: if (rd) {              /* read */
            size_t want = pick_len(bs), n = 0; bool fb = wl(2); std::string b(want + 1, '\xEE');
            e = M_fs_file_read(fd, (unsigned char *)&b[0], want, &n, fb ? M_FS_FILE_RW_FULLBUF : M_FS_FILE_RW_NORMAL);
            logf("read %zu at %llu of %zu fb %d -> %d n %zu", want, (unsigned long long)pos, cur.size(), fb, e, n);
            SIM_CHECK(n <= want && b[want] == '\xEE', "read-overrun", "%zu bytes read into %zu", n, want);
            size_t left = pos < cur.size() ? cur.size() - (size_t)pos : 0;
            SIM_CHECK(n <= left, "read-beyond-end", "%zu bytes read, %zu are left", n, left);
            SIM_CHECK(n == 0 || !memcmp(b.data(), cur.data() + pos, n), "read-data", "%zu bytes read at %llu are not what was written there", n, (unsigned long long)pos);
            if (e == M_FS_ERROR_SUCCESS) {
                if (left) SIM_CHECK(n > 0, "read-short", "end of file reported at %llu of %zu bytes", (unsigned long long)pos, cur.size());
                if (fb || !fault_enabled(F_SHORT_READ)) SIM_CHECK(n == std::min(left, want), "read-short", "%zu bytes read at %llu, %zu asked for, %zu left", n, (unsigned long long)pos, want, left);
                if (wr) { std::string got; fs_read_file(f.path, &got); SIM_CHECK(got == cur, "read-flush", "a read succeeded though what was written before is not in the file"); settle(f); unsure = false; }
                if (n) probe("file.read");
            } else SIM_CHECK(faulty, "spurious-error", "read failed with %d", e);
            pos += n;
            break;
        } /* fallthrough */
        case 5: case 6: {                      /* seek */
            int from = (int)wl(3); int64_t o = (int64_t)wl(cur.size() + 40) - (from == 0 ? (wl(4) ? 0 : 20) : from == 1 ? (int64_t)cur.size() : (int64_t)(pos + wl(20))); if (wl(3) == 0) o = 0;
            int64_t to = o + (from == 0 ? 0 : from == 1 ? (int64_t)cur.size() : (int64_t)pos);
            e = M_fs_file_seek(fd, o, from == 0 ? M_FS_FILE_SEEK_BEGIN : from == 1 ? M_FS_FILE_SEEK_END : M_FS_FILE_SEEK_CUR);
            logf("seek %lld from %d (to %lld) -> %d", (long long)o, from, (long long)to, e);
            if (e == M_FS_ERROR_SUCCESS) { SIM_CHECK(to >= 0, "seek-negative", "a seek before the start succeeded"); pos = (uint64_t)to; if (wr && !(o == 0 && from == 2)) { std::string got; fs_read_file(f.path, &got); SIM_CHECK(got == cur, "seek-flush", "a seek succeeded though what was written before is not in the file"); settle(f); unsure = false; } }
            else { SIM_CHECK(to < 0 || faulty, "spurious-error", "seek failed with %d", e); }
            break;
        }
        default: {                             /* sync */
            bool os = wl(2); e = M_fs_file_sync(fd, os ? M_FS_FILE_SYNC_BUFFER | M_FS_FILE_SYNC_OS : M_FS_FILE_SYNC_BUFFER);
            logf("sync os %d -> %d", os, e);
            std::string got; fs_read_file(f.path, &got);
            if (e == M_FS_ERROR_SUCCESS) { SIM_CHECK(got == cur, "sync-content", "after a successful sync the file holds %zu bytes, %zu were written", got.size(), cur.size()); settle(f); unsure = false; if (os) { f.synced = true; f.dur = f.base; f.touched.assign(f.dur.size(), 0); f.dtrunc = false; probe("file.synced"); } }
            else { SIM_CHECK(faulty, "spurious-error", "sync failed with %d", e); unsure = true; }
            break;
        }
        }
        if (wl(16) == 0) jitter();
    }
    (void)unsure;
    M_fs_file_close(fd);
    after_close(f, faulty && bs, "close");
}
static void files()
{
    world_begin(); allow({ F_STALL, F_EINTR, F_SHORT_READ, F_SHORT_WRITE, F_DISK_EIO_READ, F_DISK_EIO_WRITE, F_DISK_FULL, F_DISK_FSYNC_FAIL, F_DISK_OPEN_FAIL, F_CRASH });
    fs_cfg().track_durability = true; std::vector<Rec> v; F = &v;
    g_power = choose(CFG, 2); fs_cfg().power_loss = g_power;
    if (incarnation() && !carried().empty()) {
        load(carried());
        for (auto &f : v) {
            std::string got; bool there = fs_read_file(f.path, &got);
            if (f.synced && !f.dtrunc) {
                SIM_CHECK(there, "durable-gone", "%s was synced to the device and does not exist after the crash", f.path.c_str()); SIM_CHECK(got.size() >= f.dur.size(), "durable-lost", "%s was synced with %zu bytes and has %zu after the crash", f.path.c_str(), f.dur.size(), got.size());
                for (size_t i = 0; i < f.dur.size(); i++) SIM_CHECK((i < f.touched.size() && f.touched[i]) || got[i] == f.dur[i], "durable-lost", "byte %zu of %s was synced to the device and is different after the crash", i, f.path.c_str());
                probe("file.durable_checked");
            }
            if (there && !g_prev_power && !f.maybe_trunc) { std::string c; SIM_CHECK(prefix_match(f, got, &c), "crash-content", "after the process died %s holds %zu bytes which are not the data up to some point", f.path.c_str(), got.size()); probe("file.process_crash_checked"); }
            f.exists = there; f.base = got; f.pend.clear(); f.synced = there; f.dur = got; f.touched.assign(got.size(), 0); f.maybe_trunc = f.dtrunc = false;
        }
    } else {
        size_t n = 1 + wl(3); for (size_t i = 0; i < n; i++) { Rec f; f.path = "/data/f" + std::to_string(i); if (wl(2)) { f.exists = true; f.base = gen(wl(700)); fs_write_file(f.path, f.base); f.synced = true; f.dur = f.base; f.touched.assign(f.dur.size(), 0); } v.push_back(f); }
    }
    fs_on_crash([] { return save(); });
    deadline(now() + 20000 * SEC, "stuck", "file operations do not end");
    size_t ns = 2 + wl(10);
    JoinAll j; for (size_t t = 0; t < v.size(); t++) { j.go([t, ns, &v] { for (size_t i = 0; i < ns; i++) { session(v[t]); if (wl(4) == 0) jitter(); } }); }
    j.join(); faults_stop();
    SIM_CHECK(fs_open_handles() == 0, "file-leak", "%zu files left open", fs_open_handles());
    deadline_clear(); world_end();
}
}
using f01::files;
SIM_WORLD(F01, files, "base/fs file I/O, path handling", "disk with a durability model, clock, threads", 1);

namespace f02 {
struct Ent { char t; std::string d; unsigned m; bool operator==(const Ent &o) const { return t == o.t && d == o.d; } };
typedef std::map<std::string, Ent> Tree;      /* relative path -> entry; "" is the top */
static void snap(const std::string &p, const std::string &rel, Tree &t)
{
    std::string tg;
    if (fs_readlink(p, &tg)) { t[rel] = { 'l', tg, 0 }; return; }
    if (!fs_exists(p)) return;
    if (fs_is_dir(p)) { t[rel] = { 'd', "", fs_mode(p) }; for (auto &n : fs_list(p)) snap(p + "/" + n, rel.empty() ? n : rel + "/" + n, t); return; }
    std::string c; fs_read_file(p, &c); t[rel] = { 'f', c, fs_mode(p) };
}
static Tree snap(const std::string &p) { Tree t; snap(p, "", t); return t; }
static int g_n;
static std::string content() { std::string d(wl(3) ? wl(200) : wl(2) ? 8192 * (1 + wl(3)) : wl(20000), 0); g_n++; for (size_t i = 0; i < d.size(); i++) d[i] = (char)(1 + (g_n * 31 + i * 7 + (i >> 8)) % 255); return d; }
static void build(const std::string &p, int depth)
{
    static const unsigned dm[] = { 0755, 0700 }, fm[] = { 0644, 0600, 0755 };
    if (depth == 0) { fs_write_file(p, content(), fm[wl(3)]); return; }
    fs_mkdirs(p); (void)dm;
    for (int i = 0, n = (int)wl(5); i < n; i++) {
        std::string c = p + "/" + (wl(4) ? "e" : ".h") + std::to_string(i);
        switch (wl(5)) { case 0: build(c, depth - 1); break; case 1: sim::fs_symlink(wl(2) ? "e0" : "../nothing", p + "/sl" + std::to_string(i)); break; default: fs_write_file(c, content(), fm[wl(3)]); }
    }
}
static int cb_left; static uint64_t cb_calls;
static M_bool progress(const M_fs_progress_t *p) { SIM_CHECK(cb_left != 0, "not-cancelled", "the operation goes on after its callback asked to stop"); cb_calls++; (void)M_fs_progress_get_path(p); (void)M_fs_progress_get_result(p); if (cb_left > 0) cb_left--; return cb_left != 0 ? M_TRUE : M_FALSE; }
static std::string diff(const Tree &a, const Tree &b) { for (auto &e : a) { auto i = b.find(e.first); if (i == b.end()) return "'" + e.first + "' is missing"; if (!(i->second == e.second)) return "'" + e.first + "' is " + tx(i->second.d) + ", not " + tx(e.second.d); } for (auto &e : b) if (!a.count(e.first)) return "'" + e.first + "' is extra"; return ""; }
/* each entry of a is intact in b or in c */
static std::string union_diff(const Tree &a, const Tree &b, const Tree &c) { for (auto &e : a) { auto i = b.find(e.first), k = c.find(e.first); if (e.second.t == 'd') continue; if (!((i != b.end() && i->second == e.second) || (k != c.end() && k->second == e.second))) return "'" + e.first + "' is intact nowhere"; } return ""; }
/* what was at the destination: only a file of the same name may be written over, and it never disappears */
static std::string bystander(const Tree &d0, const Tree &s0, const Tree &d1) { for (auto &e : d0) { auto i = d1.find(e.first), k = s0.find(e.first); if (i == d1.end()) return "'" + e.first + "' is gone from the destination"; if (!(k != s0.end() && k->second.t == 'f' && e.second.t == 'f') && !(i->second == e.second)) return "'" + e.first + "' changed in the destination"; } return ""; }
struct Op { int kind = -1; std::string src, dst; Tree before, dbefore; bool ovr = false; } op;
static std::string enc(const Tree &t) { std::string s; f01::put(s, std::to_string(t.size())); for (auto &e : t) { f01::put(s, e.first); f01::put(s, std::string(1, e.second.t)); f01::put(s, e.second.d); } return s; }
static Tree dec(const std::string &s) { Tree t; size_t o = 0, n = std::stoul(f01::take(s, o)); while (n--) { std::string k = f01::take(s, o), ty = f01::take(s, o), d = f01::take(s, o); t[k] = { ty[0], d, 0 }; } return t; }
static void fs_ops()
{
    world_begin(); allow({ F_STALL, F_EINTR, F_SHORT_READ, F_SHORT_WRITE, F_DISK_EIO_READ, F_DISK_EIO_WRITE, F_DISK_FULL, F_DISK_OPEN_FAIL, F_DISK_RENAME_FAIL, F_DISK_UNLINK_FAIL, F_MKDIR_FAIL, F_CRASH });
    fs_cfg().power_loss = false; fs_cfg().mount = "/mnt/"; bool faulty = any_fault_enabled(); opts().max_steps = 1000000;
    if (incarnation() && !carried().empty()) {
        size_t o = 0; int kind = std::stoi(f01::take(carried(), o)); std::string src = f01::take(carried(), o), dst = f01::take(carried(), o); Tree b = dec(f01::take(carried(), o)), db = dec(f01::take(carried(), o)); bool ovr = f01::take(carried(), o) == "1";
        Tree s = snap(src), d = snap(dst);
        if (kind == 0) { std::string x = diff(b, s); SIM_CHECK(x.empty(), "crash-source", "the source of a copy changed at a crash: %s", x.c_str()); }
        if (kind == 1) { std::string x = union_diff(b, s, d); SIM_CHECK(x.empty(), "crash-move", "after a crash during a move %s", x.c_str()); }
        if (kind <= 1 && !ovr) for (auto &e : db) if (e.second.t == 'f') { auto i = d.find(e.first); SIM_CHECK(i != d.end() && i->second == e.second, "crash-dest", "existing '%s' was touched without OVERWRITE", e.first.c_str()); }
        if (kind <= 1 && ovr && !db.empty() && !(b.count("") && b[""].t == 'd' && db[""].t == 'd' && db.size() == 1)) { std::string x = bystander(db, b, d); SIM_CHECK(x.empty(), "crash-dest", "after a crash during a %s with OVERWRITE %s", kind ? "move" : "copy", x.c_str()); }
        probe("fsop.crash_checked");
    }
    op = Op(); g_n = incarnation() * 1000;
    fs_on_crash([] { if (op.kind < 0) return std::string(); std::string s; f01::put(s, std::to_string(op.kind)); f01::put(s, op.src); f01::put(s, op.dst); f01::put(s, enc(op.before)); f01::put(s, enc(op.dbefore)); f01::put(s, op.ovr ? "1" : "0"); return s; });
    deadline(now() + 20000 * SEC, "stuck", "file operations do not end");
    for (int k = 0, nops = 1 + (int)wl(6); k < nops; k++) {
        std::string root = "/data/i" + std::to_string(incarnation()) + "_" + std::to_string(k), src = root + "/src", top = choose(CFG, 3) ? root : "/mnt" + root, dst = top + "/dst", dir = top + "/dir"; fs_mkdirs(root); fs_mkdirs(top);      /* /mnt is another device */
        int kind = (int)wl(3); bool tree = wl(3) != 0, ovr = wl(3) == 0, pres = wl(2); build(src, tree ? 1 + (int)wl(3) : 0);
        std::string to = dst; bool exists = wl(4) == 0;
        if (exists) { if (wl(2) && tree) build(dst, 1); else fs_write_file(dst, content()); }
        std::string eff = dst;
        if (!tree && wl(4) == 0) { fs_mkdirs(dir); to = dir; eff = dir + "/src"; exists = false; if (wl(2)) { fs_write_file(eff, content()); exists = true; } }
        Tree s0 = snap(src), d0 = snap(eff), sib; fs_write_file(root + "/sibling", "sibling");
        uint32_t mode = (ovr ? M_FS_FILE_MODE_OVERWRITE : 0) | (pres ? M_FS_FILE_MODE_PRESERVE_PERMS : 0);
        bool usecb = wl(2); cb_left = wl(4) ? -1 : 1 + (int)wl(6); cb_calls = 0; uint32_t pf = usecb ? (uint32_t)wl(8) : 0; bool cancel = usecb && cb_left > 0;
        Op o2; o2.kind = kind; o2.src = src; o2.dst = eff; o2.before = s0; o2.dbefore = d0; o2.ovr = ovr; op = o2;
        M_fs_error_t e;
        logf("op %d tree %d ovr %d pres %d exists %d cb %d entries %zu", kind, tree, ovr, pres, exists, usecb, s0.size());
        if (kind == 0) e = M_fs_copy(src.c_str(), to.c_str(), mode, usecb ? progress : NULL, pf);
        else if (kind == 1) e = M_fs_move(src.c_str(), to.c_str(), mode, usecb ? progress : NULL, pf);
        else e = M_fs_delete(src.c_str(), M_TRUE, usecb ? progress : NULL, pf);
        op.kind = -1;
        Tree s1 = snap(src), d1 = snap(eff); std::string x;
        cancel = cancel && cb_left == 0;
        logf("result %d", e);
        bool ok = e == M_FS_ERROR_SUCCESS;
        if (!ok) SIM_CHECK(faulty || cancel || (exists && (!ovr || tree) && kind < 2), "spurious-error", "operation %d failed with %d", kind, e);
        SIM_CHECK(!ok || !cancel, "not-cancelled", "operation %d reports success although its callback asked to stop", kind);
        if (!ok && kind < 2 && exists) { x = bystander(d0, s0, d1); SIM_CHECK(x.empty(), "dest-lost", "operation %d failed with %d and %s", kind, e, x.c_str()); probe("fsop.dest_kept"); }
        if (kind == 0) {
            x = diff(s0, s1); SIM_CHECK(x.empty(), "copy-source", "copying changed the source: %s", x.c_str());
            if (ok) { SIM_CHECK(!exists || ovr, "overwrite", "a copy replaced what existed without OVERWRITE"); x = diff(s0, d1); SIM_CHECK(x.empty(), "copy-incomplete", "the copy was reported done, but %s", x.c_str()); probe("fsop.copied"); }
            else if (exists && !ovr) { x = diff(d0, d1); SIM_CHECK(x.empty(), "overwrite", "a refused copy changed the destination: %s", x.c_str()); probe("fsop.refused"); }
            else probe("fsop.copy_failed");
        } else if (kind == 1) {
            if (ok) { SIM_CHECK(!exists || ovr, "overwrite", "a move replaced what existed without OVERWRITE"); x = diff(s0, d1); SIM_CHECK(x.empty(), "move-incomplete", "the move was reported done, but %s", x.c_str()); SIM_CHECK(s1.empty(), "move-source", "the source is still there after a move reported done"); probe("fsop.moved"); }
            else { x = union_diff(s0, s1, d1); SIM_CHECK(x.empty(), "move-lost", "a move failed and %s", x.c_str()); if (exists && !ovr) { x = diff(d0, d1); SIM_CHECK(x.empty(), "overwrite", "a refused move changed the destination: %s", x.c_str()); } probe("fsop.move_failed"); }
        } else {
            if (ok) { SIM_CHECK(s1.empty(), "delete-left", "the delete was reported done and '%s' is still there", s1.begin()->first.c_str()); probe("fsop.deleted"); }
            else for (auto &en : s1) SIM_CHECK(s0.count(en.first) && s0[en.first] == en.second, "delete-changed", "a failed delete changed '%s'", en.first.c_str());
        }
        if (ok && kind < 2 && pres && !exists) for (auto &en : d1) if (en.second.t == 'f') SIM_CHECK(en.second.m == s0[en.first].m, "perms", "'%s' has mode %o, the original %o", en.first.c_str(), en.second.m, s0[en.first].m);
        std::string sb; SIM_CHECK(fs_read_file(root + "/sibling", &sb) && sb == "sibling", "sibling", "an unrelated file was touched");
        SIM_CHECK(fs_open_handles() == 0, "file-leak", "%zu files left open", fs_open_handles());
    }
    deadline_clear(); world_end();
}
}
using f02::fs_ops;
SIM_WORLD(F02, fs_ops, "base/fs copy, move, delete, directory walk, file I/O, paths", "disk, clock, threads", 1);
