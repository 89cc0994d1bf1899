#include "kernel.h"
#include <dlfcn.h>
#include <link.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>
#include <errno.h>
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <dirent.h>
#include <algorithm>
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>

const char *fault_names[] = {"none", "crash", "torn_write_crash", "io_error", "disk_full", "short_io", "too_many_files", "close_error", "stall", "clock_jump", "no_memory", "crash_probe", "torn_crash_probe", "access_denied", "interrupted", "?"};
const char *sys_names[] = {"open_r", "open_w", "close_r", "close_w", "read", "write", "lseek", "stat", "remove", "rename", "opendir", "malloc", "other"};

static Kernel theK; Kernel *K = &theK;
long k_bb_budget = 0x7fffffff;
i64 k_clock_skew = 0;
std::function<const COp *(Fiber *)> kernel_next_op;
std::vector<std::string> k_paths;

u64 hstr(const std::string &s, u64 h) { for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }

// ------------------------------------------------------------------ FS
FS FS::clone() const {
    FS r; r.dirs = dirs; r.next_ino = next_ino; r.capacity = capacity;
    std::map<int, InodeP> m;
    for (auto &kv : files) {
        auto &np = m[kv.second->id];
        if (!np) { np = std::make_shared<Inode>(*kv.second); np->nopen = 0; }
        r.files[kv.first] = np;
    }
    return r;
}
u64 FS::used() const { u64 t = 0; for (auto &kv : files) t += kv.second->data.size(); return t; }
std::vector<std::string> FS::list(const std::string &dir) const {
    std::vector<std::string> v; std::string pre = dir + "/";
    for (auto it = files.lower_bound(pre); it != files.end() && it->first.compare(0, pre.size(), pre) == 0; ++it) {
        std::string n = it->first.substr(pre.size());
        if (n.find('/') == std::string::npos) v.push_back(n);
    }
    return v;
}
u64 FS::hash() const { u64 h = 7; for (auto &kv : files) { h = hstr(kv.first, h); h = hstr(kv.second->data, hmix(h, kv.second->data.size())); } return h; }

// ------------------------------------------------------------------ slots
struct Slot {
    void *dl; client_exec_ft exec; client_boot_ft boot;
    struct Seg { char *addr; size_t len; char *image; };
    std::vector<Seg> segs;
    char *arena; size_t arena_sz; size_t brk, hiwater;
    bool in_use;
    std::map<size_t, std::vector<u32>> bigfree;                        // freed large blocks by size
    std::vector<std::vector<u32>> fifo; std::vector<size_t> fhead;   // freed blocks by class (offsets)
    std::vector<char *> stacks; std::vector<bool> stack_used;
};
static std::vector<Slot *> slots;
static const size_t ARENA = 512ull << 20; static const size_t STACK = 512 << 10;
static char *sched_stack_bottom; static size_t sched_stack_size;
static void *sched_sp, *sched_fake;
// switch stacks: callee-saved registers only, no system calls
extern "C" void k_switch(void **save, void *load);
asm(".text\n.globl k_switch\n.type k_switch,@function\nk_switch:\n push %rbp\n push %rbx\n push %r12\n push %r13\n push %r14\n push %r15\n mov %rsp, (%rdi)\n mov %rsi, %rsp\n"
    " pop %r15\n pop %r14\n pop %r13\n pop %r12\n pop %rbx\n pop %rbp\n ret\n.size k_switch, .-k_switch\n");

static __attribute__((noinline)) void raw_copy(char *d, const char *s, size_t n) { asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); }
static __attribute__((noinline)) void raw_fill(char *d, int v, size_t n) { asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(v) : "memory"); }

static int phdr_cb(struct dl_phdr_info *info, size_t, void *arg) {
    auto *pr = (std::pair<Slot *, void *> *)arg;
    struct link_map *lm = (struct link_map *)pr->second;
    if (info->dlpi_addr != lm->l_addr) return 0;
    uintptr_t rlo = 0, rhi = 0;
    for (int i = 0; i < info->dlpi_phnum; i++) if (info->dlpi_phdr[i].p_type == PT_GNU_RELRO) { rlo = info->dlpi_addr + info->dlpi_phdr[i].p_vaddr; rhi = rlo + info->dlpi_phdr[i].p_memsz; rhi &= ~4095ul; rlo &= ~4095ul; }
    for (int i = 0; i < info->dlpi_phnum; i++) {
        auto &ph = info->dlpi_phdr[i];
        if (ph.p_type != PT_LOAD || !(ph.p_flags & PF_W)) continue;
        uintptr_t lo = info->dlpi_addr + ph.p_vaddr, hi = lo + ph.p_memsz;
        if (rhi > lo && rlo <= lo) lo = rhi < hi ? rhi : hi;
        if (lo < hi) { Slot::Seg s; s.addr = (char *)lo; s.len = hi - lo; s.image = (char *)mmap(0, s.len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); raw_copy(s.image, s.addr, s.len); pr->first->segs.push_back(s); }
    }
    return 1;
}

void kernel_init(const std::string &so, int n, const std::string &tmp) {
    for (int i = 0; i < n; i++) {
        std::string p = so + "." + std::to_string(i);   // copies made by the build
        void *d = dlopen(p.c_str(), RTLD_NOW | RTLD_LOCAL);
        if (!d) { fprintf(stderr, "dlopen: %s\n", dlerror()); exit(3); }
        Slot *s = new Slot; s->dl = d; s->in_use = false;
        s->exec = (client_exec_ft)dlsym(d, "client_exec"); s->boot = (client_boot_ft)dlsym(d, "client_boot");
        if (!s->exec || !s->boot) { fprintf(stderr, "client symbols missing\n"); exit(3); }
        struct link_map *lm; dlinfo(d, RTLD_DI_LINKMAP, &lm);
        std::pair<Slot *, void *> pr(s, lm); dl_iterate_phdr(phdr_cb, &pr);
        void *want = (void *)(0x600000000000ull - 0x400000000000ull + (u64)i * 0x100000000ull);
        s->arena = (char *)mmap(want, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if (s->arena != want) { fprintf(stderr, "arena mmap\n"); exit(3); }
        s->arena_sz = ARENA; s->brk = s->hiwater = 0;
        // stacks live behind the arena
        for (int k = 0; k < 8; k++) {
            void *w = (char *)want + 0x40000000ull + (u64)k * 0x1000000;
            char *st = (char *)mmap(w, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
            if (st != w) { fprintf(stderr, "stack mmap\n"); exit(3); }
            s->stacks.push_back(st); s->stack_used.push_back(false);
        }
        slots.push_back(s);
    }
    pthread_attr_t a; void *lo; size_t sz; pthread_getattr_np(pthread_self(), &a); pthread_attr_getstack(&a, &lo, &sz); pthread_attr_destroy(&a);
    sched_stack_bottom = (char *)lo; sched_stack_size = sz;
}

static Slot *slot_acquire() { for (auto *s : slots) if (!s->in_use) { s->in_use = true; return s; } fprintf(stderr, "out of slots\n"); _exit(3); }
static void slot_release(Slot *s) {
    s->in_use = false;
    __asan_unpoison_memory_region(s->arena, s->brk + 4096);
    s->brk = 0; s->fifo.clear(); s->fhead.clear(); s->bigfree.clear();
    for (size_t k = 0; k < s->stacks.size(); k++) s->stack_used[k] = false;
}
static void slot_fresh(Slot *s) {
    for (auto &g : s->segs) raw_copy(g.addr, g.image, g.len);
    s->brk = 0; s->fifo.assign(64, {}); s->fhead.assign(64, 0);
    if (s->hiwater > (64u << 20)) { madvise(s->arena, s->arena_sz, MADV_DONTNEED); s->hiwater = 0; }
}

void kernel_reset(const KConfig &c) {
    for (auto *f : K->fibers) delete f;
    for (auto *p : K->procs) { if (p->slot) slot_release(p->slot); for (auto *d : p->dirs) delete d; delete p; }
    K->fibers.clear(); K->procs.clear();
    K->fs = FS(); K->cfs = &K->fs; K->cfg = c; K->now = 1700000000ll * 1000000ll;
    K->stuck.clear(); K->sw.clear(); K->fl.clear(); K->rs = Rng(c.seed * 3 + 11); K->rf = Rng(c.seed * 5 + 17);
    K->trace = c.seed; K->ev = 0; K->sched_hash = 1; K->nswitch = K->nsys = 0;
    memset(K->fault_count, 0, sizeof K->fault_count); memset(K->sys_count, 0, sizeof K->sys_count);
    K->faults_left = c.max_faults; K->crashes_left = c.crash_budget; K->faults_on = true; K->probing = false; K->cur = nullptr; K->die_msg.clear();
    k_clock_skew = 0; K->bbyield = false; K->on_mark = nullptr; K->on_bad_fd = nullptr; K->fault_filter = nullptr; K->on_fs = nullptr; K->logbuf.clear(); K->fsstates.clear();
    for (auto *s : slots) if (s->in_use) slot_release(s);
}
int kernel_new_proc() { Process *p = new Process; p->id = (int)K->procs.size(); K->procs.push_back(p); return p->id; }
void kernel_boot(Process *p) {
    p->slot = slot_acquire(); slot_fresh(p->slot); p->alive = true; p->incarnation++; p->fds.clear(); for (auto *d : p->dirs) delete d; p->dirs.clear(); p->nkeys = 0;
}
void kernel_kill(Process *p) {
    if (!p->alive) return;
    for (auto &e : p->fds) if (e.used) { e.ino->nopen--; e.used = false; e.ino = nullptr; }
    p->fds.clear(); for (auto *d : p->dirs) delete d; p->dirs.clear();
    for (auto *f : K->fibers) if (f->proc == p) { f->st = FS_DEAD; f->blk = nullptr; }
    slot_release(p->slot); p->slot = nullptr; p->alive = false;
}
Fiber *kernel_fiber(int actor, Process *p) { Fiber *f = new Fiber; f->actor = actor; f->proc = p; f->st = FS_DONE; return f; }

void Kernel::event(const char *what, const std::string &d, i64 r) {
    if (probing) { if (!log) return; }
    else { ev++; trace = hmix(trace, hstr(d, (u64)(unsigned char)what[0] * 131 + (cur ? cur->actor : 99)) + (u64)r * 31); }
    if (log && logbuf.size() < log_cap) {
        char b[64]; snprintf(b, sizeof b, "%s%lld a%d op%d ", probing ? "  probe " : "", (long long)(now - 1700000000ll * 1000000ll), cur ? cur->actor : -1, cur && cur->op ? cur->op->id : -1);
        logbuf += b; logbuf += what; logbuf += " "; logbuf += d.substr(0, 120); snprintf(b, sizeof b, " = %lld\n", (long long)r); logbuf += b;
    }
}

// ------------------------------------------------------------------ fibers
static void to_sched(Reason r) {
    Fiber *f = K->cur; K->reason = r;
    if (!K->probing) K->ykey = SwitchKey{f->actor, f->op ? f->op->id : -1, K->bbyield ? 'b' : 's', K->bbyield ? f->bb_done : f->sync_n}; f->saved_errno = errno; f->bb_saved = k_bb_budget;
    __sanitizer_start_switch_fiber(&f->asan_fake, sched_stack_bottom, sched_stack_size);
    k_switch(&f->sp, sched_sp);
    __sanitizer_finish_switch_fiber(f->asan_fake, nullptr, nullptr);
    errno = f->saved_errno;
}
// a search step runs a dozen queries, each several times over
static u64 heavy(const Fiber *f) { return f->op && (f->op->code == OP_SEARCH || f->op->code == OP_MSEARCH || f->op->code == OP_SCORES || f->op->code == OP_DUMP || f->op->code == OP_OPEN_R || f->op->code == OP_OPTIMIZE || f->op->code == OP_ADD_READERS) ? 20 : 1; }
static void bb_arm(Fiber *f) {   // set the budget until the next interesting basic block
    u64 cap = K->cfg.bb_op_cap * heavy(f), left = f->bb_done >= cap ? 1 : cap - f->bb_done + 1, d = left;
    f->bb_next_switch = 0;
    if (!K->probing) {
        if (K->cfg.replay) {
            auto it = K->sw.upper_bound(SwitchKey{f->actor, f->op ? f->op->id : -1, 'b', f->bb_done});
            if (it != K->sw.end() && it->first.actor == f->actor && it->first.op == (f->op ? f->op->id : -1) && it->first.kind == 'b') { u64 t = it->first.n - f->bb_done; if (t < d) { d = t; f->bb_next_switch = it->first.n; } }
        } else if (K->cfg.bb_mean && f->op) {
            u64 t = 1 + K->rs.next() % (2 * K->cfg.bb_mean); if (t < d) { d = t; f->bb_next_switch = f->bb_done + t; }
        }
    }
    f->bb_given = d; k_bb_budget = (long)d;
}
static u64 bb_now(Fiber *f) { return f->bb_done + (f->bb_given - (u64)(k_bb_budget < 0 ? 0 : k_bb_budget)); }

static void fiber_main() {
    Fiber *f = K->cur;
    __sanitizer_finish_switch_fiber(nullptr, nullptr, nullptr);
    static __thread int dummy; (void)dummy;
    f->op = nullptr; k_bb_budget = 0x7fffffffffff;   // loading the library is not preempted
    f->proc->slot->boot(K->cfg.noop_mutex);
    for (;;) {
        f->op = nullptr;
        const COp *op = kernel_next_op(f);
        if (!op) break;
        f->op = op; f->sticky_op = -1; f->sync_n = f->sys_n = 0; f->bb_done = 0; f->excode = 0; f->msg.clear(); f->obs.clear(); f->badobs.clear(); f->have_status = false; f->t0 = K->now; f->stalled = 0; f->sleeps = 0;
        bb_arm(f);
        if (!K->probing) to_sched(R_OPBEGIN);
        f->t0 = K->now; f->stalled = 0;
        f->proc->slot->exec(op);
        u64 used = bb_now(f); f->total_bb = used; k_bb_budget = 0x7fffffffffff; f->bb_done = 0; f->bb_given = 0x7fffffffffff;
        f->sync_n++;
        to_sched(R_OPEND);
    }
    f->st = FS_DONE;
    for (;;) to_sched(R_OPEND);
}
void kernel_start_fiber(Fiber *f) {
    Slot *s = f->proc->slot; int k = -1;
    for (size_t i = 0; i < s->stacks.size(); i++) if (!s->stack_used[i]) { k = (int)i; break; }
    if (k < 0) { fprintf(stderr, "out of stacks\n"); _exit(3); }
    s->stack_used[k] = true; f->stack = s->stacks[k]; f->stack_sz = STACK;
    __asan_unpoison_memory_region(f->stack, STACK);
    raw_fill(f->stack, (int)(0xA5 ^ (K->cfg.fill_seed & 0xff)), STACK);
    void **sp = (void **)(((uintptr_t)f->stack + STACK) & ~(uintptr_t)15); *--sp = nullptr; *--sp = (void *)fiber_main; for (int i = 0; i < 6; i++) *--sp = nullptr; f->sp = sp;
    f->st = FS_READY; f->spec.clear(); f->asan_fake = nullptr; f->blk = nullptr; f->bb_saved = 0x7fffffffffff; f->bb_given = 0x7fffffffffff; f->bb_done = 0; f->saved_errno = 0;
}
Reason kernel_resume(Fiber *f) {
    Fiber *save = K->cur; K->bbyield = false; K->cur = f; K->reason = R_NONE; k_bb_budget = f->bb_saved;
    __sanitizer_start_switch_fiber(&sched_fake, f->stack, f->stack_sz);
    k_switch(&sched_sp, f->sp);
    __sanitizer_finish_switch_fiber(sched_fake, nullptr, nullptr);
    K->cur = save;
    return K->reason;
}

std::vector<OpResult> kernel_probe(FS &fs, const std::vector<const COp *> &ops, i64 start) {
    std::vector<OpResult> res; Process pr; pr.id = 99; kernel_boot(&pr);
    Fiber f; f.actor = 99; f.proc = &pr;
    bool sp = K->probing; FS *sf = K->cfs; i64 snow = K->now; Fiber *scur = K->cur; auto snext = kernel_next_op; void *suc = sched_sp, *sfake = sched_fake;
    K->probing = true; K->cfs = &fs; if (start) K->now = start;
    size_t i = 0; kernel_next_op = [&](Fiber *) -> const COp * { return i < ops.size() ? ops[i++] : nullptr; };
    kernel_start_fiber(&f); i64 began = K->now;
    bool done = false;
    while (!done) {
        Reason r = kernel_resume(&f); OpResult o;
        switch (r) {
        case R_OPEND: if (f.st == FS_DONE) { done = true; break; } o.excode = f.excode; o.msg = f.msg; o.obs = std::move(f.obs); o.badobs = std::move(f.badobs); res.push_back(std::move(o)); break;
        case R_SLEEP: K->now = std::max(K->now, f.wake); f.st = FS_READY; if (K->now - began > 60000000ll) { o.hung = true; o.msg = "call does not return"; res.push_back(o); done = true; } break;
        case R_BLOCK: o.hung = true; o.msg = "self-deadlock on a mutex"; res.push_back(o); done = true; break;
        case R_DIED: o.died = true; o.msg = K->die_msg; res.push_back(o); done = true; break;
        case R_HANG: o.hung = true; o.msg = "endless loop"; res.push_back(o); done = true; break;
        default: break;
        }
    }
    for (auto &e : pr.fds) if (e.used) e.ino->nopen--;
    for (auto *d : pr.dirs) delete d;
    slot_release(pr.slot);
    K->probing = sp; K->cfs = sf; K->now = snow; K->cur = scur; kernel_next_op = snext; sched_sp = suc; sched_fake = sfake;
    return res;
}

// ------------------------------------------------------------------ decisions
// A sync point: the scheduler may take the CPU away here.
static void sync_point() {
    Fiber *f = K->cur; if (!f || K->probing || !f->op) return;
    f->sync_n++;
    SwitchKey key{f->actor, f->op->id, 's', f->sync_n};
    bool yield = false;
    if (K->cfg.replay) yield = K->sw.count(key) > 0;
    else yield = K->fibers.size() > 1 && K->rs.chance(K->cfg.p_switch);
    if (yield) to_sched(R_YIELD);
}
void k_bb_slow(void) {
    Fiber *f = K->cur; if (!f) { k_bb_budget = 0x7fffffffffff; return; }
    f->bb_done += f->bb_given; f->bb_given = 0;
    if (f->bb_done >= K->cfg.bb_op_cap * heavy(f)) { to_sched(R_HANG); }
    bool sw = f->op && f->bb_next_switch && f->bb_done == f->bb_next_switch && !K->probing;
    if (sw) { K->bbyield = true; to_sched(R_YIELD); K->bbyield = false; }
    bb_arm(f);
}
void k_yield(void) { sync_point(); }

// returns a fault to inject at this system call, if any
static FaultRec fault_at(SysKind sk, const std::string &path) {
    Fiber *f = K->cur; FaultRec none{F_NONE, 0};
    if (!f || !f->op) return none;
    K->now += K->cfg.syscall_us;
    if (K->probing) return none;
    K->nsys++; K->sys_count[sk]++;
    if (K->now - f->t0 - f->stalled > K->cfg.op_time_cap * (i64)heavy(f)) { to_sched(R_HANG); }
    f->sys_n++;
    SwitchKey key{f->actor, f->op->id, 'f', f->sys_n};
    auto inject = [&](const FaultRec &r) { K->fault_count[r.kind]++; K->event("FAULT", std::string(fault_names[r.kind]) + " at " + sys_names[sk] + " " + path, r.arg); };
    auto stick = [&](const FaultRec &r) { if (r.arg >= 1000000 && (r.kind == F_EIO || r.kind == F_EACCES || r.kind == F_EMFILE || r.kind == F_ENOSPC)) { f->sticky_op = f->op->id; f->sticky_kind = r.kind; f->sticky_sk = sk; f->sticky_path = path; } };
    if (f->sticky_op == f->op->id && f->sticky_sk == sk && f->sticky_path == path && (K->cfg.replay || K->faults_on)) { FaultRec r{f->sticky_kind, 1000000}; inject(r); return r; }
    if (K->cfg.replay) { auto it = K->fl.find(key); if (it == K->fl.end()) return none; FaultRec r = it->second; inject(r); stick(r); return r; }
    if (!K->faults_on) return none;
    const double *p = K->cfg.p_fault; FaultRec r = none; Rng &g = K->rf;
    bool mut = sk == SK_OPEN_W || sk == SK_WRITE || sk == SK_REMOVE || sk == SK_RENAME || sk == SK_CLOSE_W;
    auto allowed = [&](SysKind s) { return !K->fault_filter || K->fault_filter(f, s, path); };
    if (K->crashes_left > 0 && g.chance(p[F_CRASH] * (mut ? 1.0 : 0.15)) && sk != SK_MALLOC) { K->crashes_left--; if (sk == SK_WRITE && g.chance(0.5)) r = {F_TORN, (i64)g.below(1000)}; else r = {F_CRASH, 0}; }
    else if (mut && p[F_PROBE] > 0 && g.chance(p[F_PROBE])) { if (sk == SK_WRITE && g.chance(0.4)) r = {F_PROBE_TORN, (i64)g.below(1000)}; else r = {F_PROBE, 0}; }
    else if (p[F_STALL] > 0 && sk != SK_MALLOC && g.chance(p[F_STALL])) r = {F_STALL, (i64)(1 + g.below((u32)K->cfg.stall_us))};
    else if (p[F_CLOCK] > 0 && sk != SK_MALLOC && g.chance(p[F_CLOCK])) r = {F_CLOCK, (i64)g.range(-5000, 3000) * 1000};
    else if (K->faults_left > 0) {
        switch (sk) {
        case SK_OPEN_R: case SK_OPENDIR:
            if (p[F_EMFILE] > 0 && g.chance(p[F_EMFILE])) r = {F_EMFILE, 0}; else if (p[F_EIO] > 0 && g.chance(p[F_EIO])) r = {g.chance(.5) ? F_EIO : F_EACCES, 0}; break;
        case SK_OPEN_W:
            if (p[F_ENOSPC] > 0 && g.chance(p[F_ENOSPC])) r = {F_ENOSPC, 0}; else if (p[F_EMFILE] > 0 && g.chance(p[F_EMFILE])) r = {F_EMFILE, 0}; else if (p[F_EIO] > 0 && g.chance(p[F_EIO])) r = {F_EIO, 0}; break;
        case SK_WRITE:
            if (p[F_ENOSPC] > 0 && g.chance(p[F_ENOSPC])) r = {F_ENOSPC, (i64)g.below(1000)}; else if (p[F_SHORT] > 0 && g.chance(p[F_SHORT])) r = {F_SHORT, (i64)g.below(1000)}; else if (p[F_EIO] > 0 && g.chance(p[F_EIO])) r = {F_EIO, 0}; break;
        case SK_READ:
            if (p[F_SHORT] > 0 && g.chance(p[F_SHORT] * 0.3)) r = {F_SHORT, (i64)g.below(1000)}; else if (p[F_EIO] > 0 && g.chance(p[F_EIO] * 0.3)) r = {F_EIO, 0}; break;
        case SK_CLOSE_W: case SK_CLOSE_R: if (p[F_CLOSE_EIO] > 0 && g.chance(p[F_CLOSE_EIO])) r = {F_CLOSE_EIO, 0}; break;
        case SK_LSEEK: if (p[F_EIO] > 0 && g.chance(p[F_EIO] * 0.1)) r = {F_EIO, 0}; break;
        case SK_STAT: case SK_REMOVE: case SK_RENAME: if (p[F_EIO] > 0 && g.chance(p[F_EIO])) r = {g.chance(.5) ? F_EIO : F_EACCES, 0}; break;
        case SK_MALLOC: if (p[F_NOMEM] > 0 && g.chance(p[F_NOMEM])) r = {F_NOMEM, 0}; break;
        default: break;
        }
        if (r.kind) { if (!allowed(sk)) return none; K->faults_left--; if (K->cfg.p_sticky > 0 && r.arg < 1000000 && sk != SK_MALLOC && (r.kind == F_EIO || r.kind == F_EACCES || r.kind == F_EMFILE || r.kind == F_ENOSPC) && g.chance(K->cfg.p_sticky)) r.arg += 1000000; }
    }
    if (r.kind) { K->fl[key] = r; inject(r); stick(r); }
    return r;
}
// common preamble; returns true if the call must fail with *err
static bool pre(SysKind sk, const std::string &path, FaultRec *out, int *err) {
    if (sk != SK_MALLOC) sync_point();
    FaultRec r = fault_at(sk, path); *out = r; *err = 0;
    switch (r.kind) {
    case F_CRASH: K->cur->sync_n++; to_sched(R_CRASH); return true;
    case F_STALL: K->cur->stalled += r.arg; K->cur->sync_n++; K->cur->st = FS_SLEEP; K->cur->wake = K->now + r.arg; to_sched(R_SLEEP); return false;
    case F_CLOCK: k_clock_skew += r.arg * 1000; return false;
    case F_PROBE: to_sched(R_PROBE); return false;
    case F_EIO: *err = EIO; return true;
    case F_EACCES: *err = EACCES; return true;
    case F_EMFILE: *err = EMFILE; return true;
    case F_NOMEM: *err = ENOMEM; return true;
    case F_ENOSPC: if (sk == SK_OPEN_W) { *err = ENOSPC; return true; } return false;
    default: return false;
    }
}

// ------------------------------------------------------------------ system calls
static FdEnt *getfd(int fd) {
    Process *p = K->cur->proc; fd -= 3;
    if (fd < 0 || fd >= (int)p->fds.size() || !p->fds[fd].used) { errno = EBADF; if (K->on_bad_fd && !K->probing) K->on_bad_fd(K->cur, fd + 3); return nullptr; }
    return &p->fds[fd];
}
static std::string norm(const char *s) { std::string p(s); while (p.size() > 1 && p.back() == '/') p.pop_back(); size_t i; while ((i = p.find("//")) != std::string::npos) p.erase(i, 1); return p; }
static std::string parent(const std::string &p) { size_t i = p.rfind('/'); return i == std::string::npos ? "" : p.substr(0, i); }
static int alloc_fd(Process *p) { if (!K->cfg.fd_fresh) for (size_t i = 0; i < p->fds.size(); i++) if (!p->fds[i].used) return (int)i; p->fds.push_back(FdEnt()); return (int)p->fds.size() - 1; }
static void fs_ev(const char *e, const std::string &a, const std::string &b = "") { if (!K->probing && K->on_fs) K->on_fs(e, a, b); }

int k_open(const char *path, int flags, int) {
    std::string p = norm(path); bool wr = (flags & O_ACCMODE) != O_RDONLY || (flags & O_CREAT); FaultRec fr; int err;
    if (pre(wr ? SK_OPEN_W : SK_OPEN_R, p, &fr, &err)) { errno = err; K->event("open!", p, -err); return -1; }
    auto it = K->cfs->files.find(p);
    if (it == K->cfs->files.end()) {
        if (K->cfs->dirs.count(p)) { if (wr) { errno = EISDIR; return -1; } }
        if (!(flags & O_CREAT)) { errno = ENOENT; K->event("open", p, -ENOENT); return -1; }
        if (!K->cfs->dirs.count(parent(p))) { errno = ENOENT; K->event("open", p, -ENOENT); return -1; }
        auto n = std::make_shared<Inode>(); n->id = K->cfs->next_ino++; n->nlink = 1; n->mtime = K->now;
        it = K->cfs->files.emplace(p, n).first; fs_ev("create", p);
    } else {
        if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; K->event("open", p, -EEXIST); return -1; }
        if ((flags & O_TRUNC) && (flags & O_ACCMODE) != O_RDONLY) { it->second->data.clear(); fs_ev("trunc", p); }
    }
    int i = alloc_fd(K->cur->proc); FdEnt &e = K->cur->proc->fds[i]; e.used = true; e.ino = it->second; e.pos = 0; e.flags = flags; e.op = K->cur->op ? K->cur->op->id : -1; e.path = p; it->second->nopen++; if (K->opened) K->opened->insert(p);
    K->event("open", p, i + 3 + (flags & (O_ACCMODE | O_CREAT | O_EXCL | O_TRUNC)) * 1000);
    return i + 3;
}
int k_close(int fd) {
    FdEnt *e = getfd(fd); if (!e) { K->event("close", "bad", fd); return -1; }
    bool w = (e->flags & O_ACCMODE) != O_RDONLY; FaultRec fr; int err; std::string p = e->path;
    bool fail = pre(w ? SK_CLOSE_W : SK_CLOSE_R, p, &fr, &err);
    e = getfd(fd); if (!e) return -1;
    e->ino->nopen--; e->used = false; e->ino = nullptr;
    K->event("close", p, fd);
    if (fr.kind == F_CLOSE_EIO) { errno = EIO; return -1; }
    (void)fail; return 0;
}
static ssize_t do_read(FdEnt *e, void *buf, size_t n, i64 pos) {
    i64 sz = (i64)e->ino->data.size(); if (pos >= sz) return 0; size_t m = std::min<i64>((i64)n, sz - pos); memcpy(buf, e->ino->data.data() + pos, m); return (ssize_t)m;
}
ssize_t k_pread(int fd, void *buf, size_t n, i64 off) {
    FdEnt *e = getfd(fd); if (!e) return -1; FaultRec fr; int err;
    if (pre(SK_READ, e->path, &fr, &err)) { errno = err; return -1; }
    e = getfd(fd); if (!e) return -1;
    if (fr.kind == F_SHORT && n > 1) n = 1 + (size_t)fr.arg % (n - 1);
    ssize_t r = do_read(e, buf, n, off); K->event("pread", e->path, r); return r;
}
ssize_t k_read(int fd, void *buf, size_t n) {
    FdEnt *e = getfd(fd); if (!e) return -1; FaultRec fr; int err;
    if (pre(SK_READ, e->path, &fr, &err)) { errno = err; K->event("read!", e->path, -err); return -1; }
    e = getfd(fd); if (!e) return -1;
    if (fr.kind == F_SHORT && n > 1) n = 1 + (size_t)fr.arg % (n - 1);
    ssize_t r = do_read(e, buf, n, e->pos); e->pos += r; K->event("read", e->path, r * 7 + e->pos); return r;
}
static void apply_write(Inode *ino, i64 pos, const char *b, size_t n) { if ((i64)ino->data.size() < pos) ino->data.resize((size_t)pos, 0); size_t ov = std::min<size_t>(n, ino->data.size() - (size_t)pos); memcpy(&ino->data[0] + pos, b, ov); ino->data.append(b + ov, n - ov); }
static ssize_t do_write(int fd, const void *buf, size_t n, i64 off, bool atpos) {
    FdEnt *e = getfd(fd); if (!e) return -1; FaultRec fr; int err;
    if (!buf || (u64)n > (1ull << 30)) { errno = EFAULT; K->event("write!", e->path, -EFAULT); return -1; }
    std::string copy((const char *)buf, n);   // also lets ASan check the caller's buffer
    if (n == 0) { return 0; }
    if (pre(SK_WRITE, e->path, &fr, &err)) { errno = err; K->event("write!", e->path, -err); return -1; }
    e = getfd(fd); if (!e) return -1;
    i64 pos = atpos ? off : ((e->flags & O_APPEND) ? (i64)e->ino->data.size() : e->pos); size_t m = n; bool full = false;
    if (fr.kind == F_TORN) { m = (size_t)(n * (u64)fr.arg / 1000); apply_write(e->ino.get(), pos, copy.data(), m); K->event("torn", e->path, (i64)m); fs_ev("write", e->path); K->cur->sync_n++; to_sched(R_CRASH); return -1; }
    if (fr.kind == F_PROBE_TORN) { // show the checker the file with only a prefix of this write
        m = (size_t)(n * (u64)fr.arg / 1000); std::string save = e->ino->data; apply_write(e->ino.get(), pos, copy.data(), m);
        InodeP ino = e->ino; to_sched(R_PROBE); ino->data = save; e = getfd(fd); if (!e) return -1; m = n; }
    if (fr.kind == F_ENOSPC) { fr.arg %= 1000000; m = (size_t)(n * (u64)fr.arg / 1000); if (m == n) m = 0; if (fr.arg < 500) m = 0; full = true; }
    if (fr.kind == F_SHORT) { m = (size_t)(n * (u64)fr.arg / 1000); if (m == n) m = n - 1; }
    if (K->cfs->capacity != ~0ull) { u64 u = K->cfs->used(); u64 grow = pos + (i64)m > (i64)e->ino->data.size() ? (u64)(pos + (i64)m) - e->ino->data.size() : 0; if (u + grow > K->cfs->capacity) { u64 room = K->cfs->capacity > u ? K->cfs->capacity - u : 0; u64 over = grow > room ? grow - room : 0; m = m > over ? m - over : 0; full = true; K->fault_count[F_ENOSPC]++; } }
    if (m) { apply_write(e->ino.get(), pos, copy.data(), m); e->ino->mtime = K->now; if (!atpos) e->pos = pos + (i64)m; fs_ev("write", e->path); }
    K->event("write", e->path, (i64)m + (i64)(hstr(copy) & 0xffff) * 1000);
    if (m == 0 && n > 0) { errno = full ? ENOSPC : EIO; return -1; }
    return (ssize_t)m;
}
ssize_t k_write(int fd, const void *buf, size_t n) { return do_write(fd, buf, n, 0, false); }
ssize_t k_pwrite(int fd, const void *buf, size_t n, i64 off) { return do_write(fd, buf, n, off, true); }
int64_t k_lseek(int fd, i64 off, int wh) {
    FdEnt *e = getfd(fd); if (!e) return -1; FaultRec fr; int err;
    if (pre(SK_LSEEK, e->path, &fr, &err)) { errno = err; return -1; }
    e = getfd(fd); if (!e) return -1;
    i64 np = wh == SEEK_SET ? off : wh == SEEK_CUR ? e->pos + off : (i64)e->ino->data.size() + off;
    if (np < 0) { errno = EINVAL; return -1; }
    e->pos = np; return np;
}
int k_fsync(int fd) { FdEnt *e = getfd(fd); if (!e) return -1; FaultRec fr; int err; if (pre(SK_OTHER, e->path, &fr, &err)) { errno = err; return -1; } return 0; }
int k_ftruncate(int fd, i64 n) { FdEnt *e = getfd(fd); if (!e) return -1; FaultRec fr; int err; if (pre(SK_OTHER, e->path, &fr, &err)) { errno = err; return -1; } e = getfd(fd); e->ino->data.resize((size_t)n, 0); return 0; }
static void fill_stat(struct stat *st, const Inode *i) { memset(st, 0, sizeof *st); st->st_uid = 1000; st->st_gid = 1000; st->st_ino = i ? i->id : 1; st->st_nlink = 1; st->st_mode = i ? (S_IFREG | 0600) : (S_IFDIR | 0700); st->st_size = i ? (off_t)i->data.size() : 4096; st->st_mtime = i ? i->mtime / 1000000 : 0; }
int k_stat(const char *path, void *st) {
    std::string p = norm(path); FaultRec fr; int err; if (pre(SK_STAT, p, &fr, &err)) { errno = err; return -1; }
    if (K->cfs->dirs.count(p)) { fill_stat((struct stat *)st, nullptr); return 0; }
    auto it = K->cfs->files.find(p); if (it == K->cfs->files.end()) { errno = ENOENT; return -1; }
    fill_stat((struct stat *)st, it->second.get()); K->event("stat", p, (i64)it->second->data.size()); return 0;
}
int k_fstat(int fd, void *st) { FdEnt *e = getfd(fd); if (!e) return -1; FaultRec fr; int err; if (pre(SK_STAT, e->path, &fr, &err)) { errno = err; return -1; } e = getfd(fd); if (!e) return -1; fill_stat((struct stat *)st, e->ino.get()); return 0; }
int k_access(const char *path, int) { std::string p = norm(path); FaultRec fr; int err; if (pre(SK_STAT, p, &fr, &err)) { errno = err; return -1; } if (K->cfs->dirs.count(p) || K->cfs->files.count(p)) return 0; errno = ENOENT; return -1; }
int k_unlink(const char *path) {
    std::string p = norm(path); FaultRec fr; int err; if (pre(SK_REMOVE, p, &fr, &err)) { errno = err; K->event("unlink!", p, -err); if (!K->probing) K->stuck.insert(p); return -1; }
    auto it = K->cfs->files.find(p); if (it == K->cfs->files.end()) { errno = ENOENT; K->event("unlink", p, -ENOENT); return -1; }
    K->cfs->files.erase(it); if (!K->probing) K->stuck.erase(p); fs_ev("unlink", p); K->event("unlink", p, 0); return 0;
}
int k_rmdir(const char *path) { std::string p = norm(path); FaultRec fr; int err; if (pre(SK_REMOVE, p, &fr, &err)) { errno = err; return -1; } if (!K->cfs->dirs.count(p)) { errno = ENOENT; return -1; } if (!K->cfs->list(p).empty()) { errno = ENOTEMPTY; return -1; } K->cfs->dirs.erase(p); return 0; }
int k_remove(const char *path) { if (K->cfs->dirs.count(norm(path))) return k_rmdir(path); return k_unlink(path); }
int k_rename(const char *a, const char *b) {
    std::string p = norm(a), q = norm(b); FaultRec fr; int err; if (pre(SK_RENAME, p, &fr, &err)) { errno = err; return -1; }
    auto it = K->cfs->files.find(p); if (it == K->cfs->files.end()) { errno = ENOENT; return -1; }
    InodeP i = it->second; K->cfs->files.erase(it); K->cfs->files[q] = i; fs_ev("rename", p, q); K->event("rename", p + " " + q, 0); return 0;
}
int k_link(const char *a, const char *b) { std::string p = norm(a), q = norm(b); FaultRec fr; int err; if (pre(SK_OTHER, p, &fr, &err)) { errno = err; return -1; } auto it = K->cfs->files.find(p); if (it == K->cfs->files.end()) { errno = ENOENT; return -1; } if (K->cfs->files.count(q)) { errno = EEXIST; return -1; } K->cfs->files[q] = it->second; fs_ev("create", q); return 0; }
int k_mkdir(const char *path, int) { std::string p = norm(path); FaultRec fr; int err; if (pre(SK_OTHER, p, &fr, &err)) { errno = err; return -1; } if (K->cfs->dirs.count(p)) { errno = EEXIST; return -1; } K->cfs->dirs.insert(p); return 0; }
struct KDir { std::vector<std::string> names; size_t i; struct dirent de; };
void *k_opendir(const char *path) {
    std::string p = norm(path); FaultRec fr; int err; if (pre(SK_OPENDIR, p, &fr, &err)) { errno = err; return nullptr; }
    if (!K->cfs->dirs.count(p)) { errno = ENOENT; return nullptr; }
    KDir *d = new KDir; d->names = K->cfs->list(p); d->names.push_back("."); d->names.push_back(".."); d->i = 0;
    // the order of directory entries is up to the system: permute by a hash of name and seed
    if (K->cfg.dir_shuffle) { u64 s = K->cfg.fill_seed; std::vector<std::pair<u64, std::string>> v; for (auto &n : d->names) v.push_back({hmix(hstr(n), s), n}); std::sort(v.begin(), v.end()); for (size_t i = 0; i < v.size(); i++) d->names[i] = v[i].second; }
    K->event("opendir", p, (i64)d->names.size());
    int i = alloc_fd(K->cur->proc); FdEnt &e = K->cur->proc->fds[i]; e.used = true; e.ino = std::make_shared<Inode>(); e.ino->nopen++; e.path = p; e.flags = 0; d->de.d_fileno = i; e.op = K->cur->op ? K->cur->op->id : -1;
    d->de.d_off = i; return d;
}
void *k_readdir(void *dp) { KDir *d = (KDir *)dp; if (d->i >= d->names.size()) return nullptr; std::string &n = d->names[d->i++]; d->de.d_ino = 1; d->de.d_type = DT_UNKNOWN; strncpy(d->de.d_name, n.c_str(), sizeof d->de.d_name - 1); d->de.d_name[sizeof d->de.d_name - 1] = 0; return &d->de; }
int k_closedir(void *dp) { KDir *d = (KDir *)dp; int i = (int)d->de.d_off; auto &fds = K->cur->proc->fds; if (i < (int)fds.size() && fds[i].used) { fds[i].used = false; fds[i].ino = nullptr; } delete d; return 0; }
int k_dup(int fd) { FdEnt *e = getfd(fd); if (!e) return -1; FdEnt c = *e; int i = alloc_fd(K->cur->proc); K->cur->proc->fds[i] = c; c.ino->nopen++; return i + 3; }
int k_flock(int, int) { return 0; }
int k_fcntl(int, int, long) { return 0; }
int64_t k_time_us(void) { return K->now + k_clock_skew; }
void k_sleep_us(i64 us) {
    Fiber *f = K->cur; if (!f) return; f->sync_n++; f->sleeps++; f->st = FS_SLEEP; f->wake = K->now + us; K->event("sleep", "", us); to_sched(R_SLEEP);
}
int k_fd_count(void) { int n = 0; for (auto &e : K->cur->proc->fds) n += e.used; return n; }

// ------------------------------------------------------------------ allocator
// header: 16 bytes before the block: size, magic; redzone after.
static const u32 MAGIC = 0xA110CA7E, FREED = 0xDEADF4EE;
static int cls(size_t n) { int c = 0; size_t s = 32; while (s < n) { s <<= 1; c++; } return c; }
struct Hdr { u64 size; u32 magic; u32 cap_cls; };
static bool heap_bad(const char *why) { K->die_msg = why; to_sched(R_DIED); return true; }
void *k_malloc(size_t n) {
    if (!K->cur) return nullptr;
    Slot *s = K->cur->proc->slot; 
    if (!K->probing && K->cfg.p_fault[F_NOMEM] > 0) { FaultRec fr; int err; i64 t = K->now; if (pre(SK_MALLOC, "", &fr, &err)) { errno = ENOMEM; return nullptr; } K->now = t; }
    if (n > (200u << 20)) { errno = ENOMEM; return nullptr; }
    int c = cls(n + 32); size_t total = (size_t)32 << c; 
    if (total > (1u << 20)) { total = (n + 48 + 15) & ~(size_t)15; }
    size_t off; std::map<size_t, std::vector<u32>>::iterator bf;
    auto &q = s->fifo[c]; auto &h = s->fhead[c];
    if (total == ((size_t)32 << c) && q.size() - h > (c < 8 ? 96 : 24)) { off = (size_t)q[h++] * 16; if (h > 4096) { q.erase(q.begin(), q.begin() + (long)h); h = 0; } }
    else if (total != ((size_t)32 << c) && (bf = s->bigfree.find(total)) != s->bigfree.end() && !bf->second.empty()) { off = (size_t)bf->second.back() * 16; bf->second.pop_back(); }
    else { off = s->brk; if (off + total + 4096 > s->arena_sz) { errno = ENOMEM; return nullptr; }
        if (off + total > s->hiwater) s->hiwater = off + total;
        __asan_poison_memory_region(s->arena + off, total); s->brk += total; }
    char *b = s->arena + off; __asan_unpoison_memory_region(b, 16 + n);
    Hdr *hd = (Hdr *)b; hd->size = n; hd->magic = MAGIC; hd->cap_cls = (u32)(total == ((size_t)32 << c) ? c : 63);
    __asan_poison_memory_region(b, 16);
    raw_fill(b + 16, (int)(0x5A ^ (K->cfg.fill_seed & 0xff)), n < (256u << 10) ? n : (256u << 10));
    return b + 16;
}
static Hdr *hdr(void *p) { Slot *s = K->cur->proc->slot; char *b = (char *)p - 16; if (b < s->arena || b >= s->arena + s->brk || ((uintptr_t)b & 15)) return nullptr; return (Hdr *)b; }
void k_free(void *p) {
    if (!p || !K->cur) return; Hdr *h = hdr(p);
    if (!h) { heap_bad("free() of a pointer that was not allocated"); return; }
    if (h->magic == FREED) { heap_bad("double free"); return; }
    if (h->magic != MAGIC) { heap_bad("heap corruption detected in free()"); return; }
    h->magic = FREED; Slot *s = K->cur->proc->slot; u32 c = h->cap_cls; size_t n = h->size;
    raw_fill((char *)p, 0xDD, n < 4096 ? n : 4096);
    __asan_poison_memory_region((char *)p, n);
    if (c < 63) s->fifo[c].push_back((u32)(((char *)h - s->arena) / 16));
    else s->bigfree[(n + 48 + 15) & ~(size_t)15].push_back((u32)(((char *)h - s->arena) / 16));
}
void *k_calloc(size_t a, size_t b) { size_t n = a * b; void *p = k_malloc(n); if (p) raw_fill((char *)p, 0, n); return p; }
void *k_realloc(void *p, size_t n) {
    if (!p) return k_malloc(n); Hdr *h = hdr(p);
    if (!h || h->magic != MAGIC) { heap_bad(h && h->magic == FREED ? "realloc() of freed memory" : "realloc() of a pointer that was not allocated"); return nullptr; }
    size_t o = h->size; void *q = k_malloc(n); if (!q) return nullptr; raw_copy((char *)q, (char *)p, o < n ? o : n); k_free(p); return q;
}

// ------------------------------------------------------------------ threads
struct KMutex { u32 owner; u32 count; u32 waiters; u32 destroyed; int kind; };   // kind overlays __kind at offset 16
static bool mbad(void *m) { if (__asan_address_is_poisoned(m)) { K->die_msg = "mutex used after its memory was freed"; to_sched(R_DIED); return true; } return false; }
int k_mutex_init(void *m, int rec) { memset(m, 0, 40); ((KMutex *)m)->kind = rec ? 1 : 0; return 0; }
int k_mutex_destroy(void *m) { if (mbad(m)) return 0; return 0; }
int k_mutex_lock(void *mm) {
    if (K->cfg.noop_mutex) { return 0; }
    if (mbad(mm)) return 0; KMutex *m = (KMutex *)mm; Fiber *f = K->cur; u32 me = (u32)f->actor + 1;
    sync_point();
    for (;;) {
        if (mbad(mm)) return 0;
        if (m->owner == 0) { m->owner = me; m->count = 1; return 0; }
        if (m->owner == me && m->kind == 1) { m->count++; return 0; }
        f->st = FS_BLOCKED; f->blk = mm; f->sync_n++; K->event("block", "", m->owner); to_sched(R_BLOCK);
    }
}
int k_mutex_trylock(void *mm) { if (K->cfg.noop_mutex) return 0; if (mbad(mm)) return 0; KMutex *m = (KMutex *)mm; sync_point(); u32 me = (u32)K->cur->actor + 1; if (m->owner == 0) { m->owner = me; m->count = 1; return 0; } if (m->owner == me && m->kind == 1) { m->count++; return 0; } return EBUSY; }
int k_mutex_unlock(void *mm) {
    if (K->cfg.noop_mutex) return 0;
    if (mbad(mm)) return 0; KMutex *m = (KMutex *)mm; u32 me = (u32)K->cur->actor + 1;
    if (m->owner != me) { K->event("unlock-not-owner", "", m->owner); if (m->kind) return EPERM; }
    if (m->count > 1 && m->owner == me) { m->count--; return 0; }
    m->owner = 0; m->count = 0;
    if (!K->probing) for (auto *f : K->fibers) if (f->st == FS_BLOCKED && f->blk == mm) { f->st = FS_READY; f->blk = nullptr; }
    sync_point();
    return 0;
}
int k_once(void *o, void (*fn)(void)) { int *p = (int *)o; if (!*p) { *p = 1; fn(); } return 0; }
int k_key_create(unsigned *k) { *k = (unsigned)K->cur->proc->nkeys++; return 0; }
int k_key_delete(unsigned) { return 0; }
void *k_getspecific(unsigned k) { auto &v = K->cur->spec; return k < v.size() ? v[k] : nullptr; }
int k_setspecific(unsigned k, const void *p) { auto &v = K->cur->spec; if (k >= v.size()) v.resize(k + 1, nullptr); v[k] = (void *)p; return 0; }
void k_die(const char *why) { K->die_msg = why; for (;;) to_sched(R_DIED); }
int k_real_write(int fd, const void *b, size_t n) { return (int)write(fd, b, n); }

// ------------------------------------------------------------------ client callbacks
void k_emit(const char *b, size_t n) { K->cur->obs.append(b, n); }
void k_bad(const char *b, size_t n) { if (K->cur->badobs.size() < 2000) K->cur->badobs.append(b, n); }
void k_status(int ex, const char *msg) { K->cur->excode = ex; K->cur->msg = msg ? msg : ""; K->cur->have_status = true; }
const char *k_path(int i) { return k_paths[i].c_str(); }
void k_mark(int c) { if (!K->probing && K->on_mark) K->on_mark(K->cur, c); }
