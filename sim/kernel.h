// Deterministic simulator kernel: in-memory file system, processes, threads,
// clock, allocator, fault injection.  Everything random comes from the seed.
#pragma once
#include "kapi.h"
#include <string>
#include <vector>
#include <map>
#include <set>
#include <memory>
#include <functional>
#include <tuple>

typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32;

struct Rng {
    u64 s;
    explicit Rng(u64 seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
    u64 next() { s += 0x9E3779B97F4A7C15ull; u64 z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    u32 below(u32 n) { return n ? (u32)((next() >> 11) % n) : 0; }
    int range(int lo, int hi) { return lo + (int)below((u32)(hi - lo + 1)); }
    bool chance(double p) { return (double)(next() >> 11) * (1.0 / 9007199254740992.0) < p; }
    template <class T> const T &pick(const std::vector<T> &v) { return v[below((u32)v.size())]; }
};
static inline u64 hmix(u64 h, u64 v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; return h; }
u64 hstr(const std::string &s, u64 h = 1469598103934665603ull);

struct Inode { int id = 0; std::string data; int nlink = 0; int nopen = 0; i64 mtime = 0; };
typedef std::shared_ptr<Inode> InodeP;
struct FS {
    std::map<std::string, InodeP> files;
    std::set<std::string> dirs;
    int next_ino = 1;
    u64 capacity = ~0ull;       // bytes; disk full beyond
    FS clone() const;           // deep copy
    u64 used() const;
    std::vector<std::string> list(const std::string &dir) const;
    u64 hash() const;
};

enum FaultKind { F_NONE = 0, F_CRASH, F_TORN, F_EIO, F_ENOSPC, F_SHORT, F_EMFILE, F_CLOSE_EIO, F_STALL, F_CLOCK, F_NOMEM, F_PROBE, F_PROBE_TORN, F_EACCES, F_EINTR, F_MAX };
extern const char *fault_names[];

enum SysKind { SK_OPEN_R, SK_OPEN_W, SK_CLOSE_R, SK_CLOSE_W, SK_READ, SK_WRITE, SK_LSEEK, SK_STAT, SK_REMOVE, SK_RENAME, SK_OPENDIR, SK_MALLOC, SK_OTHER, SK_MAX };
extern const char *sys_names[];

struct FdEnt { InodeP ino; i64 pos = 0; int flags = 0; bool used = false; int op = -1; std::string path; };
struct DirEnt { std::vector<std::string> names; size_t i = 0; bool used = false; };

struct Slot;      // one loaded .so copy
struct Process {
    int id = 0;                 // simulated process number (stable over restarts)
    int incarnation = 0;
    Slot *slot = nullptr;
    bool alive = false;
    std::vector<FdEnt> fds;
    std::vector<DirEnt *> dirs;
    int nkeys = 0;
};

enum FState { FS_READY, FS_SLEEP, FS_BLOCKED, FS_DONE, FS_DEAD };
struct Fiber {
    int actor = -1; Process *proc = nullptr;
    void *sp = nullptr; char *stack = nullptr; size_t stack_sz = 0;
    FState st = FS_DONE; i64 wake = 0; void *blk = nullptr;
    const COp *op = nullptr; int op_index = 0;
    u32 sync_n = 0, sys_n = 0; u64 bb_done = 0; long bb_saved = 0; u64 bb_given = 0; u64 bb_next_switch = 0;
    std::vector<void *> spec; int sticky_op = -1, sticky_kind = 0; SysKind sticky_sk = SK_OTHER; std::string sticky_path;   // a fault that lasts until the operation ends
    int saved_errno = 0; void *asan_fake = nullptr;
    // result of the running op
    int excode = 0; std::string msg, obs, badobs; bool have_status = false;
    u64 start_bb = 0; i64 t0 = 0, stalled = 0; bool mixed = false;   // it is using a reader that was opened while the index was replaced
    int sleeps = 0; u64 total_bb = 0;
    size_t bidx = 0;
};

struct SwitchKey { int actor, op; char kind; u64 n; bool operator<(const SwitchKey &o) const { return std::tie(actor, op, kind, n) < std::tie(o.actor, o.op, o.kind, o.n); } };
struct FaultRec { int kind; i64 arg; };

struct KConfig {
    u64 seed = 1;
    bool replay = false;        // take decisions from the tables only
    double p_switch = 0.0;      // at system calls / mutexes
    u64 bb_mean = 0;            // mean basic blocks between preemptions (0 = off)
    bool noop_mutex = false;    // mimic the Ruby build
    i64 syscall_us = 20;
    double p_fault[F_MAX] = {0};
    double p_stall = 0; i64 stall_us = 50000;
    double p_sticky = 0;        // an error lasts until the operation ends
    int max_faults = 0;         // error-type faults per run
    u64 bb_op_cap = 60000000ull;
    i64 op_time_cap = 120 * 1000000ll;
    u64 fill_seed = 0;
    bool fd_fresh = false;      // descriptor numbers are not used again
    int crash_budget = 0;
    bool dir_shuffle = true;
};

struct OpResult { int excode = 0; std::string msg, obs, badobs; i64 t0 = 0, t1 = 0; bool died = false, crashed = false, hung = false; };

enum Reason { R_NONE, R_YIELD, R_SLEEP, R_BLOCK, R_OPEND, R_CRASH, R_DIED, R_HANG, R_PROBE, R_OPBEGIN };

struct Kernel {
    FS fs; FS *cfs = &fs;
    KConfig cfg;
    i64 now = 0;
    std::vector<Process *> procs;
    std::vector<Fiber *> fibers;       // one per actor
    std::map<SwitchKey, int> sw;       // schedule decisions (recorded or replayed)
    std::map<SwitchKey, FaultRec> fl;  // faults
    Rng rs{1}, rf{2};
    u64 trace = 0; u64 ev = 0; u64 sched_hash = 0;
    u64 nswitch = 0, nsys = 0; u64 fault_count[F_MAX] = {0}; u64 sys_count[SK_MAX] = {0};
    int faults_left = 0, crashes_left = 0; bool faults_on = true;
    bool probing = false; bool quiet = false;
    Fiber *cur = nullptr; Reason reason = R_NONE;
    std::string die_msg;
    std::set<u64> fsstates; std::set<std::string> *opened = nullptr; std::set<std::string> stuck;   // files whose removal failed
    std::function<bool(Fiber *, SysKind, const std::string &)> fault_filter;   // may this call fail?
    std::function<void(Fiber *, int)> on_mark, on_bad_fd;
    SwitchKey ykey{0, 0, 's', 0}; bool bbyield = false;
    std::function<void(const char *ev, const std::string &a, const std::string &b)> on_fs;
    bool log = false; std::string logbuf; size_t log_cap = 1 << 20;
    std::vector<std::pair<std::string, u64>> sched_log;
    void event(const char *what, const std::string &d, i64 r);
};
extern Kernel *K;
extern "C" long k_bb_budget;
extern i64 k_clock_skew;

void kernel_init(const std::string &so_path, int nslots, const std::string &tmpdir);   // load .so copies
void kernel_reset(const KConfig &c);
int  kernel_new_proc();                       // returns proc index
void kernel_boot(Process *p);                 // new incarnation
void kernel_kill(Process *p);                 // crash: discard all volatile state
Fiber *kernel_fiber(int actor, Process *p);   // create fiber record
void kernel_start_fiber(Fiber *f);            // (re)start execution on fresh stack
Reason kernel_resume(Fiber *f);               // run until it yields to the scheduler
// run a list of ops in a pristine process on the given file system; no faults
std::vector<OpResult> kernel_probe(FS &fs, const std::vector<const COp *> &ops, i64 start_us = 0);
extern std::function<const COp *(Fiber *)> kernel_next_op;   // engine callback
void kernel_unpoison_all();
extern std::vector<std::string> k_paths;
