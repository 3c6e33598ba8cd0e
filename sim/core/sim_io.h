/* simulated descriptors, pipes, sockets, processes and files: interface for worlds */
#ifndef SIM_IO_H
#define SIM_IO_H
#include "sim.h"
#include <memory>
#include <sys/types.h>
#include <sys/socket.h>

namespace sim {
struct EpollItem;
struct File : std::enable_shared_from_this<File> {
    int  flags = 0;                 /* O_* status flags */
    bool nospace = false;           /* a writer found no room and wants a notification */
    std::vector<EpollItem *> watchers;
    const char *kind = "file";
    virtual ~File() {}
    virtual short ready() { return 0; }              /* POLL* bits */
    virtual ssize_t read(void *, size_t);
    virtual ssize_t write(const void *, size_t);
    virtual bool want_block_read() { return false; }
    virtual void last_close() {}
    void notify(short mask);
    int  nfds = 0;                  /* descriptors referring to it (all processes) */
};
typedef std::shared_ptr<File> FileP;

/* ---- network configuration ---------------------------------------------------------------- */
struct HostCfg { bool blackhole = false; bool refuse = false; uint64_t latency = 0; bool unreachable = false; uint64_t refuse_delay = 0; };
struct NetCfg {
    uint64_t latency = 50 * US, jitter = 0;
    size_t   bufcap = 65536;        /* per direction */
    size_t   maxseg = 1460;
    std::map<std::string, HostCfg> hosts;
    std::function<void(const std::string &from_ip, uint16_t from_port, const std::string &to_ip, uint16_t to_port, const std::string &data, std::function<void(std::string)> reply)> udp;
};
NetCfg &net();
void net_swarm();                   /* draw latency/buffer parameters for this run */
size_t net_live_conns();
struct NetStats { uint64_t connects, accepts, resets, bytes; };
NetStats &net_stats();
void net_reset_all(bool only_one);  /* inject connection resets now */

/* ---- processes ------------------------------------------------------------------------------ */
struct ProcCtx {                    /* a program image: what execve() starts */
    std::string path; std::vector<std::string> argv, env;
    int pid;
    /* blocking I/O for the program */
    ssize_t in(void *b, size_t n);               /* stdin */
    ssize_t out(int fd, const void *b, size_t n);/* write all; -1 on EPIPE */
    void close_fd(int fd);
    bool killed();
    size_t inherited();                          /* descriptors above 2 that came through exec */
};
typedef std::function<int(ProcCtx &)> Program;   /* returns the exit code; a negative value: killed by that signal */
void program_register(const std::string &path, Program p);
struct ProcStats { uint64_t forks, execs, exits, kills, zombies; };
ProcStats &proc_stats();

/* ---- files ------------------------------------------------------------------------------------ */
void fs_reset();
bool fs_write_file(const std::string &path, const std::string &data, unsigned mode = 0644);
bool fs_read_file(const std::string &path, std::string *out);
bool fs_exists(const std::string &path);
std::vector<std::string> fs_list(const std::string &dir);
bool fs_is_dir(const std::string &path);
unsigned fs_mode(const std::string &path);
bool fs_mkdirs(const std::string &path);
bool fs_rename(const std::string &from, const std::string &to);
bool fs_symlink(const std::string &target, const std::string &path);
bool fs_readlink(const std::string &path, std::string *out);   /* false: not a symbolic link */
size_t fs_open_handles();
void fs_crash();                    /* drop everything not durable (per the crash model), invalidate open handles */
void fs_set_capacity(uint64_t bytes);
void fs_on_crash(std::function<std::string()> oracle);   /* arm crash injection (F_CRASH): the oracle string survives */
void fs_crash_now();                /* crash and restart right here */
int64_t fs_mtime(const std::string &path);
struct FsCfg { bool track_durability = false; uint64_t io_time = 0; bool no_exdev = false; const char *mount = NULL; /* a path prefix on another device */ bool power_loss = true; /* else only the process dies */ };
FsCfg &fs_cfg();

/* ---- other outputs ---------------------------------------------------------------------------- */
std::function<void(bool err, const char *p, size_t n)> &stdio_sink();     /* stdout / stderr */
struct SyslogLine { int pri; std::string s; uint64_t t; };
std::vector<SyslogLine> &syslog_lines();
bool syslog_open();
}
#endif
