#pragma once
#include "plan.h"
#include <string.h>
#include <functional>

struct PathM {
    bool ram = false, exists = false, recreating = false; const SchemaSpec *sch = nullptr;
    std::vector<StateP> log; size_t lo = 0;
    std::map<std::string, std::string> foreign; std::set<std::string> strange; u64 recreated_seq = 0, touched = 0;   // touched: last time anything may have been committed
    // write-lock model: who holds it for certain, who may hold it
    struct Holder { int proc, slot; char kind; bool certain; bool dead; u64 epoch; };
    std::vector<Holder> holders; u64 epochs = 0, last_change = 0; std::set<int> acquiring;
    size_t acked = 0;   // last acknowledged; lo may be later: found on disk after an error or crash
    void pub() { lo = acked = last(); }
    void pub(size_t n) { lo = std::max(lo, n); acked = std::max(acked, n); }   // what had been requested when the call began; others may have gone on since
    size_t last() const { return log.size() - 1; }
    StateP cur() const { return log.back(); }
    int match(const std::string &obs, int what, size_t a, size_t b) { for (size_t i = a; i <= b && i < log.size(); i++) if (log[i]->dump(what) == obs) return (int)i; return -1; }
    int match_last(const std::string &obs, int what, size_t a, size_t b) { int r = -1; for (size_t i = a; i <= b && i < log.size(); i++) if (log[i]->dump(what) == obs) r = (int)i; return r; }
    u64 holder_epoch_certain() const { for (auto &h : holders) if (h.certain && !h.dead) return h.epoch; return 0; }
    bool certain_other(int proc, char kind, int slot) const { for (auto &h : holders) if (h.certain && !h.dead && !(h.proc == proc && h.kind == kind && h.slot == slot)) return true; return false; }
    bool possible_other(int actor) const { if (!holders.empty()) return true; for (int a : acquiring) if (a != actor) return true; return false; }
    bool contended_since(u64 seq) const { return last_change > seq; }
    void acquire(int proc, char kind, int slot) { holders.push_back({proc, slot, kind, true, false, ++epochs}); }
    void release_begin(int proc, char kind, int slot) { for (auto &h : holders) if (h.proc == proc && h.kind == kind && h.slot == slot) h.certain = false; }
    void release_end(int proc, char kind, int slot, u64 seq) { for (size_t i = 0; i < holders.size();) if (holders[i].proc == proc && holders[i].kind == kind && holders[i].slot == slot && !holders[i].dead) holders.erase(holders.begin() + (long)i); else i++; last_change = seq; }
    void clear_lock() { for (size_t i = 0; i < holders.size();) if (holders[i].dead) holders.erase(holders.begin() + (long)i); else i++; }
    void proc_died(int proc, u64 seq) { for (auto &h : holders) if (h.proc == proc) { h.dead = true; h.certain = false; } holders.push_back({proc, -1, 'x', false, true, ++epochs}); last_change = seq; }
    std::string holder_str() const { for (auto &h : holders) if (h.certain && !h.dead) return std::string(h.kind == 'w' ? "a writer" : h.kind == 'l' ? "a lock object" : "a modifying reader") + " of process " + std::to_string(h.proc); return "?"; }
    bool commits_since(u64 seq) const { return touched > seq; }
};
struct WH { int path = 0; bool tainted = false; u64 faults0 = 0; };
struct RH { int path = 0; StateP view; std::vector<StateP> cand;   // points it may show, as far as it has been looked at
    std::vector<StateP> alts; size_t kmin = 0, kmax = 0, opened_lo = 0; bool pending = false, holds = false, tainted = false, stale = false, mixed = false; u64 seq0 = 0; };
struct Ctx {
    std::vector<size_t> plast; u64 xt0 = 0;
    Op *op = nullptr; bool in = false; size_t lo0 = 0, acked0 = 0, hi_open = 0; u64 seq0 = 0, holder0 = 0, faults0 = 0; int proc_inc = 0; bool others_possible = false, appended = false, handle_err = false, was_tainted = false, recreated = false; int app_path = 0;
};
struct HistEv { int actor; Op *op; u64 t0, t1; int ex; std::string obs; bool pending; int flags; bool excused; };

struct World {
    bool blind = false, stats_crashed = false;   // contents can no longer be judged
    Plan &p; RunStats *stats; bool bad = false; std::string vcls, vmsg; u64 seq = 0;
    std::vector<PathM> paths; std::vector<Ctx> ctx; std::vector<size_t> cursor; std::vector<int> skip, after_crash; std::map<int, int> cur_sess, after_crash_pending;
    std::map<std::pair<int, int>, WH> writers; std::map<std::pair<int, int>, RH> readers;
    std::map<std::pair<int, int>, int> xflags; std::map<int, MDocP> xdocs; MDocP make_mdoc_cached(const Op &); bool x_apply(const std::vector<MDocP> &, const HistEv &, std::vector<MDocP> &);
    std::map<std::string, std::pair<int, std::string>> parsed;
    std::vector<HistEv> hist; std::map<int, std::pair<int, std::string>> results; std::set<std::string> lost; bool halt = false;   // lost: files whose writing failed or was skipped
    void stream_lost(const Op &); bool stream_unknown(const Op &);
    World(Plan &, RunStats *);
    static StateP changed_view(const StateP &, const Op &); void push_pending(RH &, Ctx &, int proc, int slot);
    bool setup(); const COp *next_op(Fiber *);
    void on_begin(Fiber *); void on_end(Fiber *); void on_crash(Process *, Fiber *); void on_probe(Fiber *); void finish();
    bool mixed_now = false; void violation(const std::string &, const std::string &);
    int probe_path(FS &, int path, const char *why, size_t lo, size_t hi); bool probe_recover(FS &, int, int, const char *, int);
    bool busy(int path, int actor); size_t floor_of(PathM &pm); void settle(int path, const char *why); void late_taint(int path); std::set<std::pair<int, int>> cut_search; void orphan_check(int, const char *); void fd_check(Fiber *, Op &, int); void check_search(Fiber *, Op &); void check_scores(Fiber *, Op &);
    bool acceptable_error(Fiber *, Op &, Ctx &); bool fault_since(int); bool lock_stuck(int); u64 err_faults(); static bool same_state(const State &, const State &); MDocP remap(const MDocP &, const SchemaSpec *);
    std::string short_dir(const FS &, int);
    void reach(const std::string &k) { stats->reach[k]++; }
    void x_begin(Fiber *, Op &); void x_end(Fiber *, Op &, int); void x_crash(Fiber *); void x_finish();
};
