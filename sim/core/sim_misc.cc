/* allocator seam (failure injection, leak accounting), stdio/syslog sinks */
#include "sim_int.h"
#include "sim_io.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <stdarg.h>

namespace sim {
struct Blk { size_t n; uint64_t seq; void *pc[5]; };
static std::unordered_map<void *, Blk> *g_blk;
static uint64_t g_blkseq;
static int g_window;
void alloc_track_begin() { if (!g_blk) g_blk = new std::unordered_map<void *, Blk>; g_blk->clear(); }
void alloc_fail_window(int d) { g_window += d; }
const char *sym_name(uintptr_t pc);
size_t alloc_outstanding(size_t *bytes, std::string *desc)
{
    size_t n = 0, b = 0;
    if (!g_blk) return 0;
    std::map<uint64_t, std::pair<void *, Blk>> o;
    for (auto &e : *g_blk) { n++; b += e.second.n; o[e.second.seq] = e; }
    if (bytes) *bytes = b;
    if (desc) { int k = 0; for (auto &e : o) { if (k++ >= 6) break; *desc += std::to_string(e.second.second.n) + " bytes from"; for (auto pc : e.second.second.pc) if (pc) { *desc += " "; *desc += sym_name((uintptr_t)pc); } *desc += "; "; } }
    return n;
}
static void __attribute__((noinline, no_sanitize("address"))) bt(void **pc, int n)
{
    void **fp = (void **)__builtin_frame_address(0);
    uintptr_t lo = cur && cur->stack ? (uintptr_t)cur->stack : 0, hi = lo + (cur ? cur->stack_size : 0);
    for (int i = 0, skip = 2; i < n; ) {
        if ((uintptr_t)fp < lo || (uintptr_t)fp + 16 > hi) break;
        void *r = fp[1]; fp = (void **)fp[0];
        if (skip-- > 0) continue;
        pc[i++] = r;
    }
}
bool in_main_proc();
static void track(void *p, size_t n)
{
    if (!g_blk || !running || !p || !in_main_proc()) return;
    Blk b; b.n = n; b.seq = g_blkseq++; memset(b.pc, 0, sizeof b.pc); bt(b.pc, 5);
    (*g_blk)[p] = b;
}
}
namespace sim { static std::function<void(bool, const char *, size_t)> *g_sink; std::function<void(bool, const char *, size_t)> &stdio_sink() { if (!g_sink) g_sink = new std::function<void(bool, const char *, size_t)>; return *g_sink; } }
using namespace sim;
extern "C" {
void *__wrap_malloc(size_t n)
{
    if (running && g_window > 0 && fault(F_ALLOC_FAIL)) return NULL;
    void *p = malloc(n); track(p, n); return p;
}
void *__wrap_calloc(size_t a, size_t b) { void *p = calloc(a, b); track(p, a * b); return p; }
void *__wrap_realloc(void *o, size_t n) { if (g_blk) g_blk->erase(o); void *p = realloc(o, n); track(p, n); return p; }
void __wrap_free(void *p) { if (g_blk) g_blk->erase(p); free(p); }
size_t __wrap_fwrite(const void *p, size_t s, size_t n, FILE *f) { if (f == stdout || f == stderr) { if (stdio_sink()) stdio_sink()(f == stderr, (const char *)p, s * n); else logf("[stdio] %.*s", (int)(s * n), (const char *)p); return n; } return fwrite(p, s, n, f); }
int __wrap_backtrace(void **, int) { return 0; }
char **__wrap_backtrace_symbols(void *const *, int) { return NULL; }
void __wrap_backtrace_symbols_fd(void *const *, int, int) {}
}
namespace sim { std::vector<SyslogLine> *g_syslog; std::vector<SyslogLine> &syslog_lines() { if (!g_syslog) g_syslog = new std::vector<SyslogLine>; return *g_syslog; } static bool g_sysopen; bool syslog_open() { return g_sysopen; } }
extern "C" {
void __wrap_openlog(const char *, int, int) { point("openlog"); g_sysopen = true; }
void __wrap_closelog(void) { point("closelog"); g_sysopen = false; }
void __wrap_syslog(int pri, const char *fmt, ...) { char b[8192]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); syslog_lines().push_back({ pri, b, now() }); point("syslog"); logf("[syslog %d] %s", pri, b); }
}

/* dynamic loading: only modules a world registered exist */
#include "sim_dl.h"
namespace sim { struct Mod { std::map<std::string, void *> sym; int refs; }; static std::map<std::string, Mod> *g_mods; static char g_dlerr[256]; void dl_register(const std::string &f, const std::map<std::string, void *> &s) { if (!g_mods) g_mods = new std::map<std::string, Mod>; (*g_mods)[f] = Mod{ s, 0 }; } size_t dl_open_count() { size_t n = 0; if (g_mods) for (auto &m : *g_mods) n += (size_t)m.second.refs; return n; } }
extern "C" {
void *__wrap_dlopen(const char *f, int) { if (f && g_mods) { auto i = g_mods->find(f); if (i != g_mods->end()) { i->second.refs++; return &i->second; } } snprintf(g_dlerr, sizeof g_dlerr, "%s: cannot open shared object file: No such file or directory", f ? f : ""); return NULL; }
void *__wrap_dlsym(void *h, const char *n) { if (g_mods) for (auto &m : *g_mods) if (h == &m.second) { auto i = m.second.sym.find(n); if (i != m.second.sym.end()) return i->second; } return NULL; }
int __wrap_dlclose(void *h) { if (g_mods) for (auto &m : *g_mods) if (h == &m.second) m.second.refs--; return 0; }
char *__wrap_dlerror(void) { return g_dlerr; }
}
