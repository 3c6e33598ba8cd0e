/* runner: seeded search over many runs in forked children, determinism gate, minimisation, replay */
#include "sim_int.h"
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/prctl.h>
#include <fcntl.h>
#include <unistd.h>
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <errno.h>
#include <time.h>
#include <elf.h>
#include <sys/syscall.h>
#include <algorithm>

namespace sim { const char *sym_name(uintptr_t pc); bool inc_worlds(const char *); }
using namespace sim;

static const int MAXW = 64;
struct Viol { int world; uint64_t seed; int status; char cls[160]; char msg[1024]; uint64_t hash; };
static const size_t HSET = 1u << 22;
struct Agg {
    uint64_t runs, ok, incon, timeouts, faulty, restarts, steps, acc, simtime, switches, preempts, recov;
    uint64_t faults[64]; uint64_t fault_runs[64];
    Probe    probes[160];
    uint64_t wruns[256];
    uint64_t nviol, known_hits;
    Viol     viol[24];
    char     incon_msg[256]; uint64_t incon_seed; int incon_world;
};
struct Ctl {
    volatile int stop;
    uint64_t hashes[HSET]; uint64_t nhash;
    uint64_t marks[HSET];  uint64_t nmark;
};
struct Job { int cmd; uint64_t base, first, stride, maxruns; double end; int nw; int worlds[256]; int nknown; char known[64][160]; };
static Ctl *ctl;
static Agg *agg[MAXW];
static Job *job[MAXW];
static Shm *shms[MAXW];
static int  pfd[MAXW][2], rfd[MAXW][2];
static pid_t zpid[MAXW];
static int  nz;

static double rt() { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec / 1e9; }

/* ---- symbol lookup in our own ELF file, without touching the heap ------------------------------------------ */
static const char *elf; static const Elf64_Sym *symtab; static size_t nsyms; static const char *strtab;
static void elf_init()
{
    int fd = open("/proc/self/exe", O_RDONLY);
    struct stat st; fstat(fd, &st);
    elf = (const char *)mmap(NULL, st.st_size, PROT_READ, MAP_PRIVATE, fd, 0); close(fd);
    const Elf64_Ehdr *h = (const Elf64_Ehdr *)elf; const Elf64_Shdr *s = (const Elf64_Shdr *)(elf + h->e_shoff);
    for (int i = 0; i < h->e_shnum; i++) if (s[i].sh_type == SHT_SYMTAB) { symtab = (const Elf64_Sym *)(elf + s[i].sh_offset); nsyms = s[i].sh_size / sizeof *symtab; strtab = elf + s[s[i].sh_link].sh_offset; }
}
const char *sim::sym_name(uintptr_t pc)
{
    if (!symtab) elf_init();
    for (size_t i = 0; i < nsyms; i++) if (ELF64_ST_TYPE(symtab[i].st_info) == STT_FUNC && pc >= symtab[i].st_value && pc < symtab[i].st_value + (symtab[i].st_size ? symtab[i].st_size : 1)) return strtab + symtab[i].st_name;
    return "?";
}
static bool boring(const char *n)
{
    static const char *pre[] = { "?", "__asan", "__interceptor", "___interceptor", "__sanitizer", "_ZN6__asan", "_ZN11__sanitizer", "_ZN14__interception", "_ZN3sim", "__wrap", "_Z", "mem", "str", "raw_copy", "abort", "raise", "gsignal", "__assert" , "sim_", NULL };
    for (int i = 0; pre[i]; i++) if (!strncmp(n, pre[i], strlen(pre[i]))) return true;
    return false;
}
static void asan_class(Shm *s)
{
    if (s->cls[0]) return;
    const char *t = strstr(s->asan, "AddressSanitizer: ");
    char type[64] = "error";
    if (t) { sscanf(t + 18, "%63[^ \n]", type); }
    const char *fn = NULL, *any = NULL;
    const char *p = s->asan;
    int first = 1;
    while ((p = strstr(p, "\n    #"))) {
        p += 6;
        char *e; long n = strtol(p, &e, 10);
        if (n == 0 && !first) break;
        first = 0;
        const char *x = strstr(e, "0x"); if (!x) continue;
        uintptr_t pc = strtoull(x, NULL, 16);
        const char *nm = sym_name(pc ? pc - 1 : 0);
        if (!any && strcmp(nm, "?")) any = nm;
        if (!boring(nm)) { fn = nm; break; }
    }
    snprintf(s->cls, sizeof s->cls, "memory-%s@%s", type, fn ? fn : any ? any : "?");
    /* message: symbolized frames */
    size_t o = 0; o += snprintf(s->msg, sizeof s->msg, "AddressSanitizer %s:", type);
    p = s->asan; int k = 0;
    while ((p = strstr(p, "\n    #")) && k < 24) {
        p += 6; char *e; long n = strtol(p, &e, 10); const char *x = strstr(e, "0x"); if (!x) continue;
        const char *nm = sym_name(strtoull(x, NULL, 16) - 1);
        if (n == 0) o += snprintf(s->msg + o, sizeof s->msg - o, " |");
        if (strncmp(nm, "_ZN6__asan", 10) && strncmp(nm, "_ZN11__san", 10)) { o += snprintf(s->msg + o, sizeof s->msg - o, " %s", nm); k++; }
        if (o > sizeof s->msg - 200) break;
    }
}

/* ---- zygote -------------------------------------------------------------------------------------------------- */
static void run_once(Shm *s, int world, uint64_t seed, int mode, int verbose)
{
    s->mode = mode; s->world = world; s->seed = seed; s->verbose = verbose;
    s->status = ST_NONE; s->cls[0] = 0; s->msg[0] = 0; s->asan[0] = 0; s->hash = s->steps = s->acc = s->simtime = s->switches = s->preempts = s->nrec = 0;
    s->rec_overflow = 0; s->faulty = 0; s->nmarks = 0; s->loglen = 0;
    memset(s->faults, 0, sizeof s->faults); memset(s->probes, 0, sizeof s->probes);
    s->carry.incarnation = 0;
    for (;;) {
        s->status = ST_NONE;
        pid_t p = (pid_t)syscall(SYS_fork);     /* raw: the sanitizer's fork handlers are slow and unnecessary here */
        if (p == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            struct itimerval it = { { 0, 0 }, { 25, 0 } }; setitimer(ITIMER_PROF, &it, NULL);
            alarm(180);
            struct rlimit rl = { 0, 0 }; setrlimit(RLIMIT_CORE, &rl);
            run_world(world);
            _exit(0);
        }
        int st = 0;
        while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
        if (s->status == ST_RESTART) { continue; }
        if (s->status == ST_NONE) {
            if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGPROF || WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGKILL)) { s->status = ST_TIMEOUT; snprintf(s->cls, sizeof s->cls, "real-timeout"); snprintf(s->msg, sizeof s->msg, "child killed (signal %d)", WTERMSIG(st)); }
            else { s->status = ST_CRASH; snprintf(s->cls, sizeof s->cls, "process-died-%d", WIFSIGNALED(st) ? WTERMSIG(st) : -WEXITSTATUS(st)); snprintf(s->msg, sizeof s->msg, "child died without a verdict, wait status 0x%x", st); }
        }
        if (s->status == ST_ASAN) asan_class(s);
        return;
    }
}
static bool hset_add(uint64_t *t, uint64_t *n, uint64_t h)
{
    if (!h) h = 1;
    if (*n > HSET / 2) return false;
    size_t i = h & (HSET - 1);
    for (;;) {
        uint64_t v = __atomic_load_n(&t[i], __ATOMIC_RELAXED);
        if (v == h) return false;
        if (v == 0) { uint64_t z = 0; if (__atomic_compare_exchange_n(&t[i], &z, h, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) { __atomic_add_fetch(n, 1, __ATOMIC_RELAXED); return true; } if (z == h) return false; }
        i = (i + 1) & (HSET - 1);
    }
}
static bool is_known(Job *j, const char *cls)
{
    for (int i = 0; i < j->nknown; i++) if (!strcmp(j->known[i], cls)) return true;
    return false;
}
static void zygote(int k)
{
    Shm *s = shm = shms[k]; Job *j = job[k]; Agg *a = agg[k];
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    if (!symtab) elf_init();
    prepare_process();
    for (;;) {
        char c; ssize_t r;
        do r = read(pfd[k][0], &c, 1); while (r < 0 && errno == EINTR);
        if (r <= 0) _exit(0);
        if (j->cmd == 0) { run_once(s, s->world, s->seed, s->mode, s->verbose); }
        else {
            for (uint64_t i = j->first; a->runs < j->maxruns && rt() < j->end && !ctl->stop; i += j->stride) {
                int w = j->worlds[i % j->nw];
                uint64_t sd = mix(j->base, i);
                run_once(s, w, sd, 0, 0);
                a->runs++; a->wruns[w]++;
                a->steps += s->steps; a->acc += s->acc; a->simtime += s->simtime > 1000 * SEC ? s->simtime - 1000 * SEC : 0; a->switches += s->switches; a->preempts += s->preempts; a->restarts += s->carry.incarnation;
                if (s->faulty) a->faulty++;
                for (int f = 0; f < 64; f++) if (s->faults[f]) { a->faults[f] += s->faults[f]; a->fault_runs[f]++; }
                for (auto &p : s->probes) { if (!p.name[0]) break; for (auto &q : a->probes) { if (!q.name[0]) { q = p; break; } if (!strcmp(q.name, p.name)) { q.count += p.count; break; } } }
                hset_add(ctl->hashes, &ctl->nhash, s->hash);
                for (unsigned m = 0; m < s->nmarks; m++) hset_add(ctl->marks, &ctl->nmark, mix(s->marks[m], w));
                if (s->status == ST_OK) a->ok++;
                else if (s->status == ST_INCONCLUSIVE || s->status == ST_TIMEOUT) { a->incon++; if (s->status == ST_TIMEOUT) a->timeouts++; a->incon_seed = sd; a->incon_world = w; snprintf(a->incon_msg, sizeof a->incon_msg, "%.200s", s->msg); }
                else {
                    bool kn = is_known(j, s->cls);
                    if (kn) a->known_hits++;
                    bool dup = false; for (uint64_t v = 0; v < a->nviol; v++) if (!strcmp(a->viol[v].cls, s->cls)) dup = true;
                    if (!dup && a->nviol < 24) { Viol &v = a->viol[a->nviol++]; v.world = w; v.seed = sd; v.status = s->status; v.hash = s->hash; snprintf(v.cls, sizeof v.cls, "%s", s->cls); snprintf(v.msg, sizeof v.msg, "%.1000s", s->msg); }
                    if (!kn) ctl->stop = 1;
                }
            }
        }
        do r = write(rfd[k][1], "d", 1); while (r < 0 && errno == EINTR);
    }
}
static void start_zygotes(int n)
{
    nz = n;
    ctl = (Ctl *)mmap(NULL, sizeof *ctl, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    cov_map = (uint8_t *)mmap(NULL, COV_SIZE, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    const char *covpc = getenv("MSTDSIM_COVPC");
    if (covpc) cov_pcs = (uintptr_t *)mmap(NULL, COV_SIZE * sizeof(uintptr_t), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    for (int k = 0; k < n; k++) {
        shms[k] = (Shm *)mmap(NULL, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        agg[k] = (Agg *)mmap(NULL, sizeof(Agg), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        job[k] = (Job *)mmap(NULL, sizeof(Job), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        if (pipe(pfd[k]) || pipe(rfd[k])) _exit(2);
    }
    for (int k = 0; k < n; k++) {
        pid_t p = fork();
        if (p == 0) { for (int i = 0; i < n; i++) { close(pfd[i][1]); close(rfd[i][0]); } zygote(k); }
        zpid[k] = p;
    }
    for (int k = 0; k < n; k++) { close(pfd[k][0]); close(rfd[k][1]); }
}
static void go(int k) { if (write(pfd[k][1], "g", 1) != 1) { fprintf(stderr, "zygote gone\n"); exit(2); } }
static void wait_z(int k) { char c; ssize_t r; do r = read(rfd[k][0], &c, 1); while (r < 0 && errno == EINTR); if (r != 1) { fprintf(stderr, "zygote %d died\n", k); exit(2); } }
static void exec_one(int k, int world, uint64_t seed, int mode, const std::vector<Choice> *in, int verbose)
{
    Shm *s = shms[k];
    s->world = world; s->seed = seed; s->mode = mode; s->verbose = verbose; s->nin = 0;
    if (in) { s->nin = std::min(in->size(), MAX_CHOICES); memcpy(s->in, in->data(), s->nin * sizeof(Choice)); }
    job[k]->cmd = 0;
    go(k); wait_z(k);
}
static std::vector<World *> all_worlds() { std::vector<World *> v; for (World *w = worlds(); w; w = w->next) v.push_back(w); return v; }
/* a world may serve several properties: its prop field is a comma separated list */
static bool serves(World *w, const std::string &prop) { std::string p = std::string(",") + w->prop + ","; return p.find("," + prop + ",") != std::string::npos; }
static bool bad(int st) { return st == ST_VIOLATION || st == ST_ASAN || st == ST_CRASH; }

static std::string jstr(const std::string &s)
{
    std::string o = "\"";
    for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += c; }
    return o + "\"";
}
static std::map<std::string, std::string> args;
static std::string arg(const char *n, const char *d = "") { auto it = args.find(n); return it == args.end() ? d : it->second; }

static void write_replay(const std::string &path, World *w, const std::string &prop, uint64_t seed, Shm *s, const std::vector<Choice> &c)
{
    static const char *sn[] = { "CFG", "WL", "SCHED", "FAULT", "RND" };
    FILE *f = fopen(path.c_str(), "w");
    fprintf(f, "mstdsim-replay 1\nproperty %s\nworld %s\nseed %llu\nclass %s\nhash %016llx\nsteps %llu\n", prop.c_str(), w->name, (unsigned long long)seed, s->cls, (unsigned long long)s->hash, (unsigned long long)s->steps);
    std::string m = s->msg; for (auto &ch : m) if (ch == '\n') ch = ' ';
    fprintf(f, "message %s\n", m.c_str());
    fprintf(f, "choices %zu\n", c.size());
    for (auto &x : c) fprintf(f, "%s %llu %llu\n", sn[x.stream], (unsigned long long)x.idx, (unsigned long long)x.val);
    fclose(f);
}
static bool read_replay(const std::string &path, std::string *world, std::string *prop, uint64_t *seed, std::string *cls, uint64_t *hash, std::vector<Choice> *c)
{
    FILE *f = fopen(path.c_str(), "r"); if (!f) return false;
    static char line[8192]; bool inl = false;
    while (fgets(line, sizeof line, f)) {
        char a[64]; unsigned long long x, y; char v[4096];
        if (!inl) {
            if (sscanf(line, "world %4095s", v) == 1) *world = v;
            else if (sscanf(line, "property %4095s", v) == 1) *prop = v;
            else if (sscanf(line, "seed %llu", &x) == 1) *seed = x;
            else if (sscanf(line, "class %4095[^\n]", v) == 1) *cls = v;
            else if (sscanf(line, "hash %llx", &x) == 1) *hash = x;
            else if (!strncmp(line, "choices", 7)) inl = true;
        } else if (sscanf(line, "%63s %llu %llu", a, &x, &y) == 3) {
            Choice ch; ch.pad = 0; ch.idx = x; ch.val = y; std::string n = a;
            ch.stream = n == "CFG" ? CFG : n == "WL" ? WL : n == "SCHED" ? SCHED : n == "FAULT" ? FAULT : RND;
            c->push_back(ch);
        }
    }
    fclose(f);
    return true;
}
static int world_index(const std::string &n) { auto v = all_worlds(); for (size_t i = 0; i < v.size(); i++) if (n == v[i]->name) return (int)i; return -1; }

/* ---- minimisation ------------------------------------------------------------------------------------------------ */
static uint64_t g_minruns;
static bool same(Shm *s, int st, const std::string &cls) { return s->status == st && cls == s->cls; }
static std::vector<Choice> minimise(int world, uint64_t seed, std::vector<Choice> c, int st, const std::string &cls, double budget)
{
    double end = rt() + budget;
    int P = nz;
    auto launch = [&](int k, const std::vector<Choice> &t) { Shm *s = shms[k]; s->world = world; s->seed = seed; s->mode = 1; s->verbose = 0; s->nin = t.size(); memcpy(s->in, t.data(), t.size() * sizeof(Choice)); job[k]->cmd = 0; g_minruns++; go(k); };
    auto test1 = [&](const std::vector<Choice> &t) { launch(0, t); wait_z(0); return same(shms[0], st, cls); };
    /* keep only what the replay actually used */
    if (test1(c)) { std::vector<Choice> r(shms[0]->rec, shms[0]->rec + shms[0]->nrec); if (r.size() <= c.size() && test1(r)) c = r; }
    /* whole streams first */
    for (int sname : { (int)RND, (int)SCHED, (int)FAULT, (int)WL, (int)CFG }) {
        std::vector<Choice> t; for (auto &x : c) if ((int)x.stream != sname) t.push_back(x);
        if (t.size() < c.size() && rt() < end && test1(t)) c = t;
    }
    size_t chunk = std::max<size_t>(1, c.size() / 2);
    while (rt() < end) {
        bool any = false;
        for (size_t i = 0; i < c.size() && rt() < end; ) {
            /* try P removals in parallel; accept the first that works */
            std::vector<std::vector<Choice>> cand; std::vector<size_t> at;
            size_t j = i;
            for (int k = 0; k < P && j < c.size(); k++, j += chunk) {
                std::vector<Choice> t(c.begin(), c.begin() + (long)j); size_t e = std::min(c.size(), j + chunk); t.insert(t.end(), c.begin() + (long)e, c.end());
                cand.push_back(t); at.push_back(j);
            }
            for (size_t k = 0; k < cand.size(); k++) launch((int)k, cand[k]);
            int good = -1;
            for (size_t k = 0; k < cand.size(); k++) { wait_z((int)k); if (good < 0 && same(shms[k], st, cls)) good = (int)k; }
            if (good >= 0) { c = cand[good]; i = at[good]; any = true; } else i = j;
        }
        if (!any) { if (chunk == 1) break; chunk = std::max<size_t>(1, chunk / 2); }
        else if (chunk > c.size()) chunk = std::max<size_t>(1, c.size() / 2);
    }
    /* smaller values */
    for (size_t i = 0; i < c.size() && rt() < end; i++) if (c[i].stream != SCHED) {
        while (c[i].val > 1 && rt() < end) { auto t = c; t[i].val = c[i].val > 3 ? c[i].val / 2 : c[i].val - 1; if (test1(t)) c = t; else break; }
    }
    return c;
}

static int cmd_search()
{
    std::string prop = arg("prop"), out = arg("out", ".");
    double secs = atof(arg("secs", "20").c_str());
    uint64_t base = strtoull(arg("seed", "1").c_str(), NULL, 10), maxruns = strtoull(arg("maxruns", "1000000000").c_str(), NULL, 10);
    auto ws = all_worlds();
    std::vector<int> list;
    for (size_t i = 0; i < ws.size(); i++) if ((serves(ws[i], prop) || prop == "all") && (arg("world").empty() || arg("world") == ws[i]->name)) for (unsigned k = 0; k < ws[i]->weight; k++) list.push_back((int)i);
    if (list.empty()) { fprintf(stderr, "no worlds for %s\n", prop.c_str()); return 2; }
    if (list.size() > 256) list.resize(256);
    /* interleave so that short searches see every world */
    std::vector<int> il; for (size_t off = 0; il.size() < list.size(); off++) { std::map<int, size_t> seen; for (int w : list) { if (seen[w]++ == off) il.push_back(w); } }
    list = il;
    std::vector<std::string> known;
    if (!arg("known").empty()) { FILE *f = fopen(arg("known").c_str(), "r"); char l[512]; while (f && fgets(l, sizeof l, f)) { l[strcspn(l, "\n")] = 0; if (l[0]) known.push_back(l); } if (f) fclose(f); }
    double t0 = rt();
    for (int k = 0; k < nz; k++) {
        Job *j = job[k];
        j->cmd = 1; j->base = mix(base, hash_bytes(prop.data(), prop.size())); j->first = k; j->stride = nz; j->maxruns = maxruns / nz + 1; j->end = t0 + secs; j->nw = (int)list.size();
        for (size_t i = 0; i < list.size(); i++) j->worlds[i] = list[i];
        j->nknown = 0; for (auto &s : known) if (j->nknown < 64) snprintf(j->known[j->nknown++], 160, "%s", s.c_str());
        go(k);
    }
    for (int k = 0; k < nz; k++) wait_z(k);
    double t1 = rt();
    Agg A; memset(&A, 0, sizeof A);
    std::vector<Viol> viols; std::map<std::string, uint64_t> probes;
    for (int k = 0; k < nz; k++) {
        Agg *a = agg[k];
        A.runs += a->runs; A.ok += a->ok; A.incon += a->incon; A.timeouts += a->timeouts; A.faulty += a->faulty; A.steps += a->steps; A.acc += a->acc; A.simtime += a->simtime; A.switches += a->switches; A.preempts += a->preempts; A.restarts += a->restarts; A.known_hits += a->known_hits;
        for (int f = 0; f < 64; f++) { A.faults[f] += a->faults[f]; A.fault_runs[f] += a->fault_runs[f]; }
        for (auto &p : a->probes) { if (!p.name[0]) break; probes[p.name] += p.count; }
        for (int w = 0; w < 256; w++) A.wruns[w] += a->wruns[w];
        for (uint64_t v = 0; v < a->nviol; v++) { bool dup = false; for (auto &x : viols) if (!strcmp(x.cls, a->viol[v].cls)) dup = true; if (!dup) viols.push_back(a->viol[v]); }
        if (a->incon && !A.incon_msg[0]) { memcpy(A.incon_msg, a->incon_msg, 256); A.incon_seed = a->incon_seed; A.incon_world = a->incon_world; }
    }
    /* determinism sample: re-run some of the seeds of this search twice in different worker processes and by replay */
    uint64_t nd = strtoull(arg("detsample", "24").c_str(), NULL, 10), dbad = 0, ddone = 0; std::string dmsg;
    for (uint64_t i = 0; i < nd && !(rt() - t1 > 8); i++) {
        uint64_t r = i * 7 % (A.runs ? A.runs : 1); int w = list[r % list.size()]; uint64_t sd = mix(job[0]->base, r);
        exec_one((int)(i % nz), w, sd, 0, NULL, 0); Shm *s = shms[i % nz]; uint64_t h1 = s->hash; int st1 = s->status; bool ovf = s->rec_overflow;
        std::vector<Choice> rc(s->rec, s->rec + s->nrec);
        if (st1 == ST_TIMEOUT) continue;
        exec_one((int)((i + 1) % nz), w, sd, 0, NULL, 0); uint64_t h2 = shms[(i + 1) % nz]->hash;
        uint64_t h3 = h1; if (!ovf) { exec_one((int)((i + 2) % nz), w, sd, 1, &rc, 0); h3 = shms[(i + 2) % nz]->hash; }
        ddone++;
        if (h1 != h2 || h1 != h3) { dbad++; if (dmsg.empty()) { char b[200]; snprintf(b, sizeof b, "world %s seed %llu hashes %016llx %016llx replay %016llx status %d", ws[w]->name, (unsigned long long)sd, (unsigned long long)h1, (unsigned long long)h2, (unsigned long long)h3, st1); dmsg = b; } }
    }
    /* sample cases, written out */
    std::string samples = "[";
    for (uint64_t i = 0; i < 3 && i < A.runs; i++) {
        uint64_t r = i * (A.runs / 3); int w = list[r % list.size()]; uint64_t sd = mix(job[0]->base, r);
        exec_one(0, w, sd, 0, NULL, 1); Shm *s = shms[0];
        size_t lim = s->loglen < 1800 ? s->loglen : 1800;
        char b[400]; snprintf(b, sizeof b, "%s{\"world\":%s,\"seed\":%llu,\"status\":%d,\"steps\":%llu,\"context_switches\":%llu,\"nonzero_choices\":%llu,\"event_hash\":\"%016llx\",\"log_head\":", i ? "," : "", jstr(ws[w]->name).c_str(), (unsigned long long)sd, s->status, (unsigned long long)s->steps, (unsigned long long)s->switches, (unsigned long long)s->nrec, (unsigned long long)s->hash);
        samples += b + jstr(std::string(s->log, lim)) + "}";
    }
    samples += "]";
    uint64_t cov = 0; for (size_t i = 0; i < COV_SIZE; i++) cov += cov_map[i] != 0;
    if (const char *covpc = getenv("MSTDSIM_COVPC")) { FILE *cf = fopen(covpc, "w"); if (cf) { for (size_t i = 0; i < COV_SIZE; i++) if (cov_pcs[i]) fprintf(cf, "%lx\n", (unsigned long)cov_pcs[i]); fclose(cf); } }
    FILE *f = fopen((out + "/search.json").c_str(), "w");
    fprintf(f, "{\"property\":%s,\"seed\":%llu,\"workers\":%d,\"runs\":%llu,\"ok\":%llu,\"inconclusive\":%llu,\"real_timeouts\":%llu,\"faulty_runs\":%llu,\"restarts\":%llu,\"known_hits\":%llu,\"secs\":%.3f,\"steps\":%llu,\"accesses\":%llu,\"sim_seconds\":%.3f,\"switches\":%llu,\"preemptions\":%llu,\"distinct_runs\":%llu,\"distinct_states\":%llu,\"edges\":%llu,\"det_checked\":%llu,\"det_bad\":%llu,\"det_msg\":%s,\n",
            jstr(prop).c_str(), (unsigned long long)base, nz, (unsigned long long)A.runs, (unsigned long long)A.ok, (unsigned long long)A.incon, (unsigned long long)A.timeouts, (unsigned long long)A.faulty, (unsigned long long)A.restarts, (unsigned long long)A.known_hits, t1 - t0, (unsigned long long)A.steps, (unsigned long long)A.acc, A.simtime / 1e9, (unsigned long long)A.switches, (unsigned long long)A.preempts, (unsigned long long)ctl->nhash, (unsigned long long)ctl->nmark, (unsigned long long)cov, (unsigned long long)ddone, (unsigned long long)dbad, jstr(dmsg).c_str());
    fprintf(f, "\"samples\":%s,\n", samples.c_str());
    fprintf(f, "\"incon_msg\":%s,\"incon_seed\":%llu,\"incon_world\":%s,\n\"faults\":{", jstr(A.incon_msg).c_str(), (unsigned long long)A.incon_seed, jstr(A.incon ? ws[A.incon_world]->name : "").c_str());
    bool c1 = false; for (int i = 0; i < NFAULT; i++) if (A.faults[i]) { fprintf(f, "%s\"%s\":{\"injected\":%llu,\"runs\":%llu}", c1 ? "," : "", fault_name(i), (unsigned long long)A.faults[i], (unsigned long long)A.fault_runs[i]); c1 = true; }
    fprintf(f, "},\n\"probes\":{"); c1 = false;
    for (auto &p : probes) { fprintf(f, "%s%s:%llu", c1 ? "," : "", jstr(p.first).c_str(), (unsigned long long)p.second); c1 = true; }
    fprintf(f, "},\n\"worlds\":["); c1 = false;
    for (size_t i = 0; i < ws.size(); i++) if (A.wruns[i]) { fprintf(f, "%s{\"name\":%s,\"runs\":%llu,\"real\":%s,\"stub\":%s}", c1 ? "," : "", jstr(ws[i]->name).c_str(), (unsigned long long)A.wruns[i], jstr(ws[i]->real).c_str(), jstr(ws[i]->stub).c_str()); c1 = true; }
    fprintf(f, "],\n\"violations\":["); c1 = false;
    int rc = 0; int nrep = 0;
    for (auto &v : viols) {
        bool kn = std::find(known.begin(), known.end(), v.cls) != known.end();
        /* gate: same seed twice (different worker processes) must give the same verdict and event hash */
        exec_one(0, v.world, v.seed, 0, NULL, 0);
        bool g1 = same(shms[0], v.status, v.cls) && shms[0]->hash == v.hash && !shms[0]->rec_overflow;
        std::vector<Choice> rcs(shms[0]->rec, shms[0]->rec + shms[0]->nrec);
        exec_one(1 % nz, v.world, v.seed, 0, NULL, 0);
        bool g2 = same(shms[1 % nz], v.status, v.cls) && shms[1 % nz]->hash == v.hash;
        exec_one(0, v.world, v.seed, 1, &rcs, 0);
        bool g3 = same(shms[0], v.status, v.cls) && shms[0]->hash == v.hash;
        std::string rp; size_t before = rcs.size(), after = 0;
        if (g1 && g2 && g3 && nrep < 6) {
            g_minruns = 0;
            std::vector<Choice> m = (kn || arg("nomin") == "1") ? rcs : minimise(v.world, v.seed, rcs, v.status, v.cls, atof(arg("minsecs", "25").c_str()));
            exec_one(0, v.world, v.seed, 1, &m, 1);
            std::vector<Choice> r2(shms[0]->rec, shms[0]->rec + shms[0]->nrec);
            after = m.size();
            char nm[64]; snprintf(nm, sizeof nm, "/%s-%d.replay", prop.c_str(), nrep++);
            rp = out + nm;
            write_replay(rp, ws[v.world], prop, v.seed, shms[0], m);
            FILE *lf = fopen((rp + ".log").c_str(), "w"); fwrite(shms[0]->log, 1, shms[0]->loglen, lf); if (shms[0]->asan[0]) { fputs("\n", lf); fputs(shms[0]->asan, lf); } fclose(lf);
        }
        fprintf(f, "%s{\"world\":%s,\"seed\":%llu,\"class\":%s,\"known\":%s,\"message\":%s,\"gate\":[%d,%d,%d],\"replay\":%s,\"choices\":%zu,\"minimised\":%zu,\"min_runs\":%llu}", c1 ? "," : "", jstr(ws[v.world]->name).c_str(), (unsigned long long)v.seed, jstr(v.cls).c_str(), kn ? "true" : "false", jstr(v.msg).c_str(), g1, g2, g3, jstr(rp).c_str(), before, after, (unsigned long long)g_minruns);
        c1 = true;
        if (!kn) rc = 1;
    }
    fprintf(f, "]}\n"); fclose(f);
    return rc;
}
static int cmd_replay()
{
    std::string w, p, cls; uint64_t seed = 0, hash = 0; std::vector<Choice> c;
    if (!read_replay(arg("file"), &w, &p, &seed, &cls, &hash, &c)) { fprintf(stderr, "cannot read %s\n", arg("file").c_str()); return 2; }
    int wi = world_index(w); if (wi < 0) { fprintf(stderr, "unknown world %s\n", w.c_str()); return 2; }
    exec_one(0, wi, seed, 1, &c, atoi(arg("v").c_str()));
    Shm *s = shms[0];
    if (atoi(arg("v").c_str()) > 0) { fwrite(s->log, 1, s->loglen, stdout); if (s->asan[0]) puts(s->asan); }
    printf("status %d class %s hash %016llx expected class %s hash %016llx %s\nmessage %s\n", s->status, s->cls, (unsigned long long)s->hash, cls.c_str(), (unsigned long long)hash, bad(s->status) && cls == s->cls && hash == s->hash ? "REPRODUCED" : "DIFFERENT", s->msg);
    return bad(s->status) && cls == s->cls && hash == s->hash ? 0 : 3;
}
static int cmd_run()
{
    int wi = world_index(arg("world")); if (wi < 0) { fprintf(stderr, "unknown world\n"); return 2; }
    exec_one(0, wi, strtoull(arg("seed", "1").c_str(), NULL, 10), 0, NULL, atoi(arg("v").c_str()));
    Shm *s = shms[0];
    if (arg("cmp") == "1") {
        exec_one(0, wi, strtoull(arg("seed", "1").c_str(), NULL, 10), 0, NULL, 1);
        FILE *f = fopen("/tmp/cmp.a", "w"); fwrite(s->log, 1, s->loglen, f); fclose(f);
        std::vector<Choice> rc(s->rec, s->rec + s->nrec);
        exec_one(0, wi, strtoull(arg("seed", "1").c_str(), NULL, 10), 1, &rc, 1);
        f = fopen("/tmp/cmp.b", "w"); fwrite(s->log, 1, s->loglen, f); fclose(f);
    }
    if (atoi(arg("v").c_str()) > 0) { fwrite(s->log, 1, s->loglen, stdout); }
    if (s->asan[0]) puts(s->asan);
    printf("status %d class %s hash %016llx steps %llu acc %llu sim %.6fs switches %llu preempts %llu rec %llu\nmessage %s\n", s->status, s->cls, (unsigned long long)s->hash, (unsigned long long)s->steps, (unsigned long long)s->acc, s->simtime / 1e9 - 1000, (unsigned long long)s->switches, (unsigned long long)s->preempts, (unsigned long long)s->nrec, s->msg);
    return bad(s->status);
}
static int cmd_list() { for (auto w : all_worlds()) printf("%s %s %u\n", w->prop, w->name, w->weight); return 0; }

int main(int argc, char **argv)
{
    /* heap addresses depend on the program name and stack addresses on the environment */
    if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) || !getenv("MSTDSIM_EXEC")) {
        personality(ADDR_NO_RANDOMIZE);
        char *env[] = { (char *)"TZ=UTC", (char *)"PATH=/usr/bin:/bin", (char *)"MSTDSIM_EXEC=1", NULL };
        argv[0] = (char *)"mstdsim";
        execve("/proc/self/exe", argv, env);
        perror("execve"); return 2;
    }
    int workers = 8;
    for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--workers")) workers = atoi(argv[i + 1]);
    if (argc > 1 && (!strcmp(argv[1], "run") || !strcmp(argv[1], "replay"))) workers = 1;
    if (workers < 1) workers = 1; if (workers > MAXW) workers = MAXW;
    signal(SIGPIPE, SIG_IGN);
    start_zygotes(workers);
    /* from here on the controller may use the heap freely */
    std::string cmd = argc > 1 ? argv[1] : "list";
    for (int i = 2; i < argc; i++) {
        std::string a = argv[i];
        if (a == "-v" || a == "-vv") args["v"] = a == "-v" ? "1" : "2";
        else if (a.compare(0, 2, "--") == 0 && i + 1 < argc) { args[a.substr(2)] = argv[i + 1]; i++; }
        else args["file"] = a;
    }
    int rc = 2;
    if (cmd == "search") rc = cmd_search();
    else if (cmd == "replay") rc = cmd_replay();
    else if (cmd == "run") rc = cmd_run();
    else if (cmd == "list") rc = cmd_list();
    for (int k = 0; k < nz; k++) close(pfd[k][1]);
    for (int k = 0; k < nz; k++) { int st; waitpid(zpid[k], &st, 0); }
    return rc;
}
