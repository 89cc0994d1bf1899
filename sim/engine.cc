// Runs one plan under the simulator and judges it against the reference model.
#include "plan.h"
#include "world.h"
#include <string.h>
#include <algorithm>

// ------------------------------------------------------------------ probes
static const COp *mkcop(int code, int path, int slot, int a = 0) { static std::vector<COp *> pool; static size_t i; if (pool.size() < 64) { pool.push_back(new COp); i = pool.size() - 1; } else i = (i + 1) % 64; COp *c = pool[i]; memset(c, 0, sizeof *c); c->id = 9000; c->code = code; c->path = path; c->slot = slot; c->a = a; c->s = c->s2 = ""; return c; }

void World::violation(const std::string &cls, const std::string &msg) {
    static const std::set<std::string> contents = {"wrong-state", "snapshot-changed", "doc-count", "stale-write", "latest-wrong", "inconsistent", "search-wrong"};
    if (bad || (blind && contents.count(cls))) return; bad = true; vcls = mixed_now ? "open-over-recreation" : cls; vmsg = msg; K->event("VIOLATION", cls + ": " + msg, 0);
}
std::string World::short_dir(const FS &fs, int path) { std::string o; for (auto &n : fs.list(p.paths[path])) { auto it = fs.files.find(p.paths[path] + "/" + n); o += n + "(" + std::to_string(it->second->data.size()) + ") "; } return o; }

// open a fresh process on the file system and match what it sees with the log.
// returns the index of the matching state or -1 (violation reported)
int World::probe_path(FS &fs, int path, const char *why, size_t lo, size_t hi) {
    PathM &pm = paths[path]; stats->probes++;
    std::vector<const COp *> ops = {mkcop(OP_OPEN_R, path, 0, p.dump_flags), mkcop(OP_CLOSE_ALL, path, 0)};
    auto r = kernel_probe(fs, ops);
    if (r.empty() || r[0].died || r[0].hung || r[0].excode) { violation("unreadable", std::string(why) + ": a new process cannot open the index: " + (r.empty() ? "?" : r[0].msg) + " | files: " + short_dir(fs, path)); return -1; }
    if (r.size() < 2 || r[1].died || r[1].hung) { violation("unreadable", std::string(why) + ": closing in a new process fails: " + r.back().msg); return -1; }
    if (!r[0].badobs.empty()) { violation("inconsistent", std::string(why) + ": the index read by a new process is inconsistent: " + r[0].badobs.substr(0, 200)); return -1; }
    int m = pm.match(r[0].obs, p.dump_flags, lo, hi);
    if (m < 0) { int any = pm.match(r[0].obs, p.dump_flags, 0, pm.log.size() - 1);
        violation("wrong-state", std::string(why) + ": a new process sees " + (any >= 0 ? "the index as it was at point " + std::to_string(any) : std::string("a state that never existed")) + ", allowed are points " + std::to_string(lo) + ".." + std::to_string(hi) + "; against the last: " + first_diff(pm.log[hi]->dump(p.dump_flags), r[0].obs)); return -1; }
    return m;
}
// recover as the documentation says (remove the stale lock, open a writer), extend, and look again
bool World::probe_recover(FS &fs, int path, int m, const char *why, int variant) {
    PathM &pm = paths[path]; stats->recoveries++;
    StateP cur = pm.log[m]; static std::vector<std::shared_ptr<Op>> docs;
    SchemaSpec &sch = p.schemas[p.path_schema[path]];
    if (docs.empty()) for (int i = 0; i < 8; i++) { auto o = std::make_shared<Op>(); o->id = 9100 + i; o->code = OP_ADD; o->doc = std::make_shared<DocSpec>(); o->doc->f.push_back({"id", {"rec" + std::to_string(i)}, 1}); o->doc->f.push_back({"body", {"recovered alpha doc w" + std::to_string(i)}, 1}); docs.push_back(o); }
    std::vector<const COp *> ops; COp ow; memset(&ow, 0, sizeof ow); ow.id = 9001; ow.code = OP_OPEN_W; ow.path = path; ow.s = ow.s2 = ""; CConfig c = p.cfgs.empty() ? CConfig{1 << 20, 1 << 24, 8, 4, 3, 3, 1000000, 10000, 1} : p.cfgs[variant % p.cfgs.size()]; ow.cfg = &c;
    ops.push_back(mkcop(OP_CLEAR_LOCKS, path, 0)); ops.push_back(&ow);
    if (variant % 4 == 0) { ops.push_back(mkcop(OP_CLOSE_W, path, 0)); }
    else {
        int n = 1 + variant % 7;
        for (int i = 0; i < n; i++) { docs[i]->fin(p); docs[i]->co.path = path; docs[i]->co.slot = 0; ops.push_back(&docs[i]->co); cur = st_add(cur, make_mdoc(9000 + i, docs[i]->doc, &sch)); }
        if (variant % 3 == 0) { COp *d = (COp *)mkcop(OP_DELTERM, path, 0); d->s = "body"; d->s2 = "alpha"; ops.push_back(d); cur = st_del_term(cur, "body", "alpha"); }
        if (variant % 5 == 0) ops.push_back(mkcop(OP_OPTIMIZE, path, 0)); else if (variant % 5 == 1) ops.push_back(mkcop(OP_COMMIT, path, 0));
        ops.push_back(mkcop(OP_CLOSE_W, path, 0));
    }
    ops.push_back(mkcop(OP_OPEN_R, path, 0, p.dump_flags)); size_t ri = ops.size() - 1; ops.push_back(mkcop(OP_CLOSE_ALL, path, 0));
    auto r = kernel_probe(fs, ops);
    for (size_t i = 0; i < ops.size(); i++) {
        if (i >= r.size() || r[i].died || r[i].hung) { violation("recovery-failed", std::string(why) + ": recovering, " + op_name(ops[std::min(i, r.size() ? r.size() - 1 : 0)]->code) + " ends with: " + (r.empty() ? "?" : r.back().msg)); return false; }
        if (r[i].excode > 0) { violation("recovery-failed", std::string(why) + ": recovering, " + op_name(ops[i]->code) + " fails: " + r[i].msg + " | files: " + short_dir(fs, path)); return false; }
    }
    if (r[ri].obs != cur->dump(p.dump_flags)) { violation("recovery-wrong", std::string(why) + ": after recovery and " + std::to_string(ops.size()) + " operations the index is wrong: " + first_diff(cur->dump(p.dump_flags), r[ri].obs)); return false; }
    return true;
}

static bool is_lock(const std::string &n) { return n.size() > 4 && n.compare(n.size() - 4, 4, ".lck") == 0; }

// what a new process needs in order to read everything, and nothing else, is left in the directory
void World::orphan_check(int path, const char *why) {
    PathM &pm = paths[path]; reach("orphan_checks"); stats->probes++;
    FS base = K->fs.clone(); base.capacity = ~0ull; std::string dir = p.paths[path];
    for (auto &n : base.list(dir)) if (is_lock(n) && !pm.strange.count(n)) base.files.erase(dir + "/" + n);
    for (auto &kv : pm.foreign) { auto it = base.files.find(dir + "/" + kv.first); if (it == base.files.end()) { violation("foreign-removed", std::string(why) + ": file \"" + kv.first + "\", which is not part of the index, was removed"); return; } if (it->second->data != kv.second) { violation("foreign-changed", std::string(why) + ": file \"" + kv.first + "\", which is not part of the index, was changed"); return; } }
    std::vector<const COp *> ops = {mkcop(OP_OPEN_R, path, 0, 15)}; std::set<std::string> used; K->opened = &used;
    FS b2 = base.clone(); auto r0 = kernel_probe(b2, ops); K->opened = nullptr;
    if (r0.empty() || r0[0].died || r0[0].hung || r0[0].excode) { violation("unreadable", std::string(why) + ": a new process cannot open the index: " + (r0.empty() ? "?" : r0[0].msg) + " | files: " + short_dir(K->fs, path)); return; }
    std::string orphans; int seen = 0;
    for (auto &n : base.list(dir)) {
        if (pm.strange.count(n) || n == "segments" || used.count(dir + "/" + n)) { seen++; continue; }
        FS c = base.clone(); c.files.erase(dir + "/" + n); auto r = kernel_probe(c, ops);
        if (!r.empty() && !r[0].died && !r[0].hung && r[0].excode == 0 && r[0].obs == r0[0].obs) orphans += n + " ";
    }
    stats->reach["files_accounted_for"] += (u64)seen;
    if (!orphans.empty()) violation("orphan-files", std::string(why) + ": files that the current commit does not need are left in the directory: " + orphans + "| files: " + short_dir(K->fs, path));
}

// ------------------------------------------------------------------ world
World::World(Plan &pl, RunStats *s) : p(pl), stats(s) {
    paths.resize(p.paths.size());
    for (size_t i = 0; i < paths.size(); i++) { paths[i].ram = p.paths[i][0] != '/'; paths[i].log.push_back(std::make_shared<State>()); paths[i].sch = &p.schemas[p.path_schema[i]]; }
    blind = p.knob.count("blind") > 0; ctx.resize(p.actors.size()); cursor.assign(p.actors.size(), 0); skip.assign(p.actors.size(), 0); after_crash.assign(p.actors.size(), 0);
}
bool World::setup() {
    for (size_t i = 0; i < paths.size(); i++) if (!paths[i].ram) {
        K->fs.dirs.insert(p.paths[i]);
        if (p.knob.count("nocreate") || p.knob.count("nocreate" + std::to_string(i))) continue;
        COp *c = (COp *)mkcop(OP_CREATE, (int)i, 0); c->schema = &p.cschemas[p.path_schema[i]];
        auto r = kernel_probe(K->fs, {c, mkcop(OP_CLOSE_ALL, (int)i, 0)});
        for (auto &n : K->fs.list(p.paths[i])) if (is_lock(n)) K->fs.files.erase(p.paths[i] + "/" + n);
        if (r.size() < 2 || r[0].excode || r[0].died || r[0].hung) { violation("create-failed", "creating an index fails: " + (r.empty() ? std::string("?") : r[0].msg)); return false; }
        paths[i].exists = true;
    }
    return true;
}
const COp *World::next_op(Fiber *f) {
    Actor &a = p.actors[f->actor]; size_t &c = cursor[f->actor];
    while (c < a.ops.size() && !halt) {
        Op *o = a.ops[c].get();
        if (p.dropped.count(o->id)) { stream_lost(*o); c++; continue; }
        if (o->sess != cur_sess[f->actor]) { if (o->sess > cur_sess[f->actor]) { cur_sess[f->actor] = o->sess; if (skip[f->actor] == 2) after_crash[f->actor] = 1; else if (skip[f->actor] == 0 || skip[f->actor] == 1) after_crash[f->actor] = after_crash_pending[f->actor]; after_crash_pending[f->actor] = 0; skip[f->actor] = 0; } }
        if (skip[f->actor] == 2) { stream_lost(*o); c++; continue; }                    // session ended by a crash
        if (skip[f->actor] == 1 && !o->cleanup && !p.knob.count("goon")) { stream_lost(*o); c++; continue; }     // session ended by an error
        if (o->ac && !after_crash[f->actor]) { c++; continue; }
        c++; ctx[f->actor].op = o; return &o->co;
    }
    return nullptr;
}
void World::stream_lost(const Op &o) { if (o.code == OP_STREAM) for (auto &t : o.strs) if (t[0] == 'w') lost.insert(std::to_string(o.path) + t.substr(1)); }
bool World::stream_unknown(const Op &o) { for (auto &t : o.strs) if (lost.count(std::to_string(o.path) + t.substr(1))) return true; return false; }
bool World::lock_stuck(int path) { for (auto &s : K->stuck) if (is_lock(s) && s.compare(0, p.paths[path].size() + 1, p.paths[path] + "/") == 0) return true; return false; }
bool World::fault_since(int proc) { return p.flags & PF_FAULTY ? err_faults() > 0 : false; }
u64 World::err_faults() { u64 n = 0; for (int k : {F_EIO, F_ENOSPC, F_SHORT, F_EMFILE, F_CLOSE_EIO, F_NOMEM, F_EACCES, F_EINTR}) n += K->fault_count[k]; return n; }

void World::on_begin(Fiber *f) {
    Op &o = *ctx[f->actor].op; Ctx &c = ctx[f->actor]; stats->ops++; stats->opc[o.code]++;
    PathM &pm = paths[o.path]; int proc = f->proc->id;
    c.in = true; c.faults0 = err_faults(); c.lo0 = pm.lo; c.acked0 = pm.acked; c.hi_open = 0; c.seq0 = ++seq; c.holder0 = pm.holder_epoch_certain(); c.proc_inc = f->proc->incarnation; c.others_possible = pm.possible_other(f->actor); c.appended = false; c.handle_err = false; c.was_tainted = false; c.recreated = pm.recreating;
    f->mixed = pm.recreating && o.code == OP_OPEN_R; { auto it = readers.find({proc, o.slot}); if (it != readers.end() && it->second.mixed && o.code != OP_OPEN_R && o.code != OP_OPEN_W && !(o.code >= OP_CLOSE_W && o.code <= OP_ADD_READERS)) f->mixed = true; }
    if (o.code == OP_CREATE) for (auto *x : K->fibers) if (x != f && ctx[x->actor].in && ctx[x->actor].op->code == OP_OPEN_R && ctx[x->actor].op->path == o.path) x->mixed = true;
    K->event("begin", op_name(o.code), o.id);
    WH *w = nullptr; if (o.code >= OP_CLOSE_W && o.code <= OP_ADD_READERS && o.code != OP_CREATE && o.code != OP_OPEN_W) { auto it = writers.find({proc, o.slot}); if (it != writers.end()) w = &it->second; }
    if (w) c.was_tainted = w->tainted;
    if (o.code >= OP_OPEN_R && o.code <= OP_SEARCH) { auto it = readers.find({proc, o.slot}); if (it != readers.end() && p.knob.count("goon")) c.was_tainted |= it->second.tainted; }
    if (o.code == OP_OPEN_W || o.code == OP_RDEL || o.code == OP_RNORM || o.code == OP_RUNDEL || o.code == OP_LOCKOBJ) pm.acquiring.insert(f->actor);
    if (w) paths[w->path].touched = seq; if (o.code == OP_CREATE || o.code == OP_CLEAR_LOCKS) pm.touched = seq; if (o.code == OP_CLOSE_ALL) for (auto &x : paths) x.touched = seq;
    if (o.code == OP_RCOMMIT || o.code == OP_CLOSE_R || o.code == OP_RDEL || o.code == OP_RNORM) { auto it = readers.find({proc, o.slot}); if (it != readers.end() && (it->second.pending || !it->second.alts.empty())) paths[it->second.path].touched = seq; }
    auto push = [&](int path, StateP s) { paths[path].log.push_back(s); c.appended = true; c.app_path = path; };
    switch (o.code) {
    case OP_ADD: if (w) push(w->path, st_add(paths[w->path].cur(), make_mdoc(o.id, o.doc, paths[w->path].sch))); break;
    case OP_DELTERM: if (w) push(w->path, st_del_term(paths[w->path].cur(), o.s, o.s2)); break;
    case OP_DELTERMS: if (w) { StateP s = paths[w->path].cur(); for (auto &t : o.strs) s = st_del_term(s, o.s, t); push(w->path, s); } break;
    case OP_ADD_READERS: if (w) { auto n = std::make_shared<State>(*paths[w->path].cur()); n->cache.clear(); bool ok = true; int cnt = 0;
        for (int i = 0; i < 12; i++) if ((o.a >> i) & 1) { auto it = readers.find({proc, i}); if (it == readers.end()) ok = false; else { cnt++; for (auto &d : it->second.view->docs) n->docs.push_back(remap(d, paths[w->path].sch)); } }
        if (ok && cnt) push(w->path, n); } break;
    case OP_CLOSE_W: if (w) { pm.release_begin(proc, 'w', o.slot); } break;
    case OP_UNLOCKOBJ: pm.release_begin(proc, 'l', o.slot); break;
    case OP_RCOMMIT: case OP_CLOSE_R: { auto it = readers.find({proc, o.slot}); if (it != readers.end()) push_pending(it->second, c, proc, o.slot); break; }
    case OP_CLOSE_ALL:
        for (auto &kv : readers) if (kv.first.first == proc) push_pending(kv.second, c, proc, kv.first.second);
        for (auto &kv : writers) if (kv.first.first == proc) paths[kv.second.path].release_begin(proc, 'w', kv.first.second);
        for (auto &q : paths) for (auto &h : q.holders) if (h.proc == proc && h.kind == 'l') h.certain = false;
        break;
    case OP_CREATE: { pm.recreating = true; push(o.path, std::make_shared<State>()); break; }
    case OP_CLEAR_LOCKS: pm.clear_lock(); break;
    case OP_FOREIGN: pm.foreign.erase(o.s); pm.strange.insert(o.s); break;
    default: break;
    }
    c.plast.clear(); for (auto &q : paths) c.plast.push_back(q.last());
    x_begin(f, o);
}
// is another call under way that may commit something to this path?
bool World::busy(int path, int actor) {
    for (size_t i = 0; i < ctx.size(); i++) if ((int)i != actor && ctx[i].in && ctx[i].op) { int k = ctx[i].op->code; if ((k >= OP_CREATE && k <= OP_ADD_READERS) || k == OP_CLOSE_R || k == OP_RCOMMIT || k == OP_RDEL || k == OP_RNORM || k == OP_CLOSE_ALL || k >= OP_X_OPEN) return true; }
    return false;
}
// what a reader that has changed something will commit; after a failed change either outcome is possible
void World::push_pending(RH &r, Ctx &c, int proc, int slot) {
    if (!r.pending && r.alts.empty()) return; PathM &q = paths[r.path];
    if (r.pending) q.log.push_back(r.view);
    for (auto &a : r.alts) q.log.push_back(a);
    c.appended = true; c.app_path = r.path; q.release_begin(proc, 'r', slot);
}
StateP World::changed_view(const StateP &v, const Op &o) {
    auto nv = std::make_shared<State>(); nv->docs = v->docs; int rank = o.a % (int)v->docs.size();
    if (o.code == OP_RDEL) nv->docs.erase(nv->docs.begin() + rank);
    else { MDoc md = *nv->docs[rank]; auto it = md.norm.find(o.s); if (it != md.norm.end()) it->second = o.b; nv->docs[rank] = std::make_shared<MDoc>(md); }
    return nv;
}
MDocP World::remap(const MDocP &d, const SchemaSpec *sch) {
    if (d->sch == sch) return d; return d;
}

bool World::acceptable_error(Fiber *f, Op &o, Ctx &c) {
    if (p.flags & PF_FAULTY) { if (err_faults() > c.faults0) return true; if (c.was_tainted || c.handle_err) return true; }
    return false;
}

void World::on_end(Fiber *f) {
    Op &o = *ctx[f->actor].op; Ctx &c = ctx[f->actor]; PathM &pm = paths[o.path]; int proc = f->proc->id; c.in = false; ++seq;
    int ex = f->excode; K->event("end", op_name(o.code), ex); K->trace = hstr(f->obs, hmix(K->trace, (u64)ex)); if (K->log) { K->logbuf += "      -> " + (ex ? f->msg : f->obs.substr(0, 200)) + "\n"; }
    // others: this call may have held the lock for a moment
    struct Guard { PathM &pm; bool on; u64 s; ~Guard() { if (on) pm.last_change = s; } } guard{pm, pm.acquiring.erase(f->actor) > 0, seq}; (void)guard;
    if (!f->have_status) { violation("no-result", std::string(op_name(o.code)) + " returned without a result"); return; }
    if (ex < 0) stream_lost(o);
    if (ex < 0) return;      // skipped: the handle it needs is not there
    if (ex > 0) stats->errors++;
    std::string where = std::string(op_name(o.code)) + " (op " + std::to_string(o.id) + ")";
    bool faulted = acceptable_error(f, o, c);
    if (!ex && !f->badobs.empty() && !(faulted && o.code == OP_CLOSE_ALL)) { violation("inconsistent", where + ": " + f->badobs.substr(0, 300)); return; }
    if (p.flags & PF_FDS) fd_check(f, o, ex);
    if (bad) return;
    if (o.code >= OP_CLOSE_W && o.code <= OP_ADD_READERS && writers.count({proc, o.slot})) paths[writers[{proc, o.slot}].path].touched = seq;
    auto wit = writers.find({proc, o.slot}); WH *w = wit != writers.end() ? &wit->second : nullptr;
    auto rit = readers.find({proc, o.slot}); RH *r = rit != readers.end() ? &rit->second : nullptr;
    auto unexpected = [&]() { violation("unexpected-error", where + " fails although nothing is wrong: " + f->msg); };
    switch (o.code) {
    case OP_OPEN_W: {
        // another holder, alive and certain, from before this call until now?
        bool must_fail = c.holder0 && pm.holder_epoch_certain() == c.holder0;
        if (!ex) {
            if (pm.certain_other(proc, 'w', o.slot)) { violation("two-writers", where + " succeeds while " + pm.holder_str() + " holds the index"); return; }
            if (must_fail) { violation("two-writers", where + " succeeds while another handle holds the index"); return; }
            WH h; h.path = o.path; h.faults0 = c.faults0; late_taint(o.path); writers[{proc, o.slot}] = h; pm.acquire(proc, 'w', o.slot); if (p.flags & PF_ORPHANS) { if (!pm.ram && !faulted) orphan_check(o.path, ("after " + where).c_str()); }
        } else {
            bool maybe = p.knob.count("xany") || must_fail || lock_stuck(o.path) || c.others_possible || pm.possible_other(f->actor) || pm.contended_since(c.seq0);
            if (ex == 12 && maybe) { reach("lock_error"); break; }
            if (!faulted) { unexpected(); return; }
            reach("open_writer_failed_by_fault"); skip[f->actor] = 1;
        }
        break; }
    case OP_CLOSE_W:
        if (!w) break;
        if (!ex && !w->tainted) { paths[w->path].pub(c.plast[w->path]); pm.release_end(proc, 'w', o.slot, seq); if ((p.flags & PF_ORPHANS) && !pm.ram && err_faults() == w->faults0) orphan_check(w->path, ("after " + where).c_str()); }
        else {
            if (ex && !faulted) { unexpected(); return; }
            int path = w->path; pm.release_end(proc, 'w', o.slot, seq); if (ex) reach("close_failed_by_fault"); else reach("close_after_error");
            writers.erase(wit); settle(path, ("after " + where).c_str()); skip[f->actor] = 1; return;
        }
        writers.erase(wit); break;
    case OP_ADD: case OP_DELTERM: case OP_DELTERMS: case OP_COMMIT: case OP_OPTIMIZE: case OP_ADD_READERS:
        if (!w) break;
        if (ex) {
            if (!faulted) { unexpected(); return; }
            w->tainted = true; skip[f->actor] = 1; reach(std::string("failed_") + op_name(o.code));
            if (!paths[w->path].ram) { FS c2 = K->fs.clone(); probe_path(c2, w->path, ("after " + where + " reported an error").c_str(), floor_of(paths[w->path]), paths[w->path].last()); }
        } else {
            if (w->tainted) break;
            { PathM &q = paths[w->path]; bool pub = o.code == OP_COMMIT || o.code == OP_OPTIMIZE || o.code == OP_ADD_READERS || ((o.code == OP_DELTERM || o.code == OP_DELTERMS) && c.appended && q.log.size() > 1 && q.log[q.last()]->docs.size() != q.log[q.last() - 1]->docs.size()); if (pub) q.pub(); }
            if (faulted) { reach("fault_survived"); if (!paths[w->path].ram) { FS c2 = K->fs.clone(); probe_path(c2, w->path, ("after " + where + " reported success").c_str(), floor_of(paths[w->path]), paths[w->path].last()); } }
            if ((p.flags & PF_ORPHANS) && (o.code == OP_COMMIT || o.code == OP_OPTIMIZE) && !paths[w->path].ram && err_faults() == w->faults0) orphan_check(w->path, ("after " + where).c_str());
        }
        break;
    case OP_DOCCOUNT: if (w && !ex && !w->tainted) { if (atoi(f->obs.c_str()) < (int)paths[w->path].cur()->docs.size()) violation("doc-count", where + " gives " + f->obs + " but " + std::to_string(paths[w->path].cur()->docs.size()) + " documents are live"); } else if (ex && !faulted) unexpected(); break;
    case OP_OPEN_R: {
        if (ex) { if (pm.ram || !faulted) { if (!(pm.recreating || c.recreated)) unexpected(); } else { reach("open_reader_failed_by_fault"); } break; }
        size_t hi = c.hi_open ? c.hi_open - 1 : pm.last();
        // a read error may make the library fall back from a commit that was never acknowledged to the one before
        if (faulted) c.lo0 = c.acked0;
        int m = o.a ? pm.match(f->obs, o.a, c.lo0, hi) : (int)c.lo0;
        if (m < 0 && blind) m = (int)c.lo0;
        if (m < 0) { int any = pm.match(f->obs, o.a, 0, pm.last()); violation("wrong-state", where + ": the reader shows " + (any >= 0 ? "point " + std::to_string(any) : std::string("a state that never existed")) + ", current during the call were points " + std::to_string(c.lo0) + ".." + std::to_string(hi) + "; against the last: " + first_diff(pm.log[hi]->dump(o.a), f->obs)); return; }
        if (hi > c.lo0) reach("reader_opened_during_changes");
        if (blind) { RH h; h.path = o.path; h.view = pm.log[m]; h.kmin = h.kmax = (size_t)m; h.stale = true; h.seq0 = c.seq0; readers[{proc, o.slot}] = h; break; }
        RH h; h.path = o.path; h.view = pm.log[m]; h.kmin = (size_t)m; h.kmax = o.a ? (size_t)pm.match_last(f->obs, o.a, c.lo0, hi) : hi; for (size_t i = (size_t)m; i <= h.kmax; i++) if (!o.a || pm.log[i]->dump(o.a) == f->obs) h.cand.push_back(pm.log[i]); h.opened_lo = c.lo0; h.stale = faulted; h.seq0 = c.seq0; h.mixed = f->mixed; readers[{proc, o.slot}] = h;
        if (pm.lo < (size_t)m) pm.lo = (size_t)m;
        break; }
    case OP_CLOSE_R: case OP_RCOMMIT:
        if (!r) break;
        if (r->pending || !r->alts.empty()) {
            int path = r->path; if (!ex || o.code == OP_CLOSE_R) paths[path].release_end(proc, 'r', o.slot, seq); else paths[path].last_change = seq;   // a failed commit is still pending
            if (!ex && !r->tainted) { paths[path].pub(c.plast[path]); r->pending = false; r->holds = false; r->kmin = r->kmax = c.plast[path]; r->opened_lo = r->kmin; r->seq0 = seq; reach("reader_commit"); if ((p.flags & PF_ORPHANS) && !paths[path].ram && !err_faults() && !stats_crashed) orphan_check(path, ("after " + where).c_str()); if (bad) return; }
            else { if (ex && !faulted) { unexpected(); return; } if (o.code == OP_CLOSE_R) readers.erase(rit); else { r->tainted = true; } settle(path, ("after " + where).c_str()); skip[f->actor] = 1; return; }
        } else if (ex && !faulted) { unexpected(); return; }
        if (o.code == OP_CLOSE_R) readers.erase(rit);
        break;
    case OP_DUMP:
        if (!r) break;
        if (ex) { if (!faulted) unexpected(); if (p.knob.count("goon")) r->tainted = true; break; }
        if (r->tainted) break;
        if (r->cand.size() > 1) { std::vector<StateP> k; for (auto &x : r->cand) if (x->dump(o.a) == f->obs) k.push_back(x); if (!k.empty()) { r->cand = k; r->view = k[0]; } }
        if (f->obs != r->view->dump(o.a)) { violation("snapshot-changed", where + ": the reader no longer shows what it showed when it was opened: " + first_diff(r->view->dump(o.a), f->obs)); return; }
        if (pm.lo > r->kmax) reach("old_snapshot_read");
        break;
    case OP_RDEL: case OP_RNORM: {
        if (!r) break; PathM &rp = paths[r->path]; int n = (int)r->view->docs.size(); if (!n && !blind) break;
        bool must_stale = c.lo0 > r->kmax && !same_state(*rp.log[c.lo0], *rp.log[r->kmax]);
        if (ex) {
            bool maybe_stale = blind || rp.commits_since(r->seq0) || busy(r->path, f->actor) || rp.last() > r->kmin || rp.recreated_seq > r->seq0 || r->stale;
            bool maybe_lock = lock_stuck(r->path) || c.others_possible || rp.possible_other(f->actor) || rp.contended_since(c.seq0);
            if (ex == 8 && maybe_stale) { reach("stale_reader_refused"); r->stale = true; break; }
            if (ex == 12 && maybe_lock) { reach("lock_error"); break; }
            if (!faulted) { unexpected(); return; }
            r->tainted = true; skip[f->actor] = 1; if (n) r->alts.push_back(changed_view(r->view, o)); r->alts.push_back(r->view); if (!r->pending && !r->holds) rp.acquire(proc, 'r', o.slot), rp.release_begin(proc, 'r', o.slot), r->holds = true; reach("failed_reader_change"); break;
        }
        if (rp.certain_other(proc, 'r', o.slot)) { violation("two-writers", where + " succeeds while " + rp.holder_str() + " holds the index"); return; }
        if (must_stale && !r->pending && !blind) { violation("stale-write", where + " is accepted although the reader shows point " + std::to_string(r->kmax) + " and point " + std::to_string(c.lo0) + " had been committed before"); return; }
        if (!r->pending && !r->holds) { late_taint(r->path); rp.acquire(proc, 'r', o.slot); }
        r->pending = true; r->holds = true; if (r->tainted || !n) break;
        r->view = changed_view(r->view, o); r->cand.clear(); break; }
    case OP_IS_LATEST: {
        if (!r) break; if (ex) { if (!faulted) unexpected(); if (p.knob.count("goon")) r->tainted = true; break; }
        PathM &rp = paths[r->path]; int v = atoi(f->obs.c_str());
        bool must_old = c.lo0 > r->kmax && !same_state(*rp.log[c.lo0], *rp.log[r->kmax]);
        bool must_new = rp.last() == r->kmin && !rp.commits_since(r->seq0) && !busy(r->path, f->actor) && !r->stale;
        if (v && must_old) { violation("latest-wrong", where + ": a reader at point " + std::to_string(r->kmax) + " claims to be the latest although point " + std::to_string(c.lo0) + " is committed"); return; }
        if (!v && must_new) { violation("latest-wrong", where + ": a reader of the current commit claims to be out of date"); return; }
        reach(must_old ? "is_latest_old" : must_new ? "is_latest_new" : "is_latest_either"); break; }
    case OP_SEARCH: case OP_MSEARCH: if (ex) { if (!faulted) unexpected(); } else check_search(f, o); break;
    case OP_SCORES: if (ex) { if (!faulted) unexpected(); } else check_scores(f, o); break;
    case OP_IS_LOCKED: {
        if (ex) { if (!faulted) unexpected(); break; }
        bool held = c.holder0 && pm.holder_epoch_certain() == c.holder0; int v = atoi(f->obs.c_str());
        if (held && !v) { violation("lock-not-seen", where + ": the index is reported as not locked while " + pm.holder_str() + " holds it"); return; }
        if (v && !lock_stuck(o.path) && !c.others_possible && !pm.possible_other(-1) && !pm.contended_since(c.seq0) && !(p.flags & PF_FAULTY)) { violation("lock-left", where + ": the index is reported as locked but nobody holds it"); return; }
        reach(v ? "is_locked_yes" : "is_locked_no"); break; }
    case OP_LOCKOBJ: {
        bool must_fail = c.holder0 && pm.holder_epoch_certain() == c.holder0; if (ex) { if (!faulted) unexpected(); break; }
        if (f->obs == "1\n") {
            if (must_fail || pm.certain_other(proc, 'l', o.slot)) { violation("two-writers", where + ": the write lock is given out while " + pm.holder_str() + " holds it"); return; }
            pm.acquire(proc, 'l', o.slot); reach("lock_object_obtained");
        } else if (!must_fail && !lock_stuck(o.path) && !c.others_possible && !pm.possible_other(f->actor) && !pm.contended_since(c.seq0) && !faulted) { violation("lock-left", where + ": the lock cannot be obtained although nobody holds it"); return; }
        else reach("lock_object_refused");
        break; }
    case OP_UNLOCKOBJ: if (ex && !faulted) { unexpected(); return; } pm.release_end(proc, 'l', o.slot, seq); break;
    case OP_CREATE: pm.recreating = false; if (ex) { if (!faulted) unexpected(); } else { pm.exists = true; pm.pub(); pm.recreated_seq = seq; } for (auto &x : ctx) if (x.in) x.recreated = true; break;
    case OP_EXIT: break;
    case OP_STREAM: {
        bool unknown = stream_unknown(o), want_err = o.expect == "ERR"; if (ex || unknown) stream_lost(o);
        if (unknown) { if (ex) skip[f->actor] = 1; reach("stream_of_lost_file"); break; }
        if (!ex && f->obs != o.expect) { violation("stream-data", where + (want_err ? ": reading past the end is not reported: " : ": ") + first_diff(o.expect, f->obs)); return; }
        if (ex && !want_err) { if (!faulted) { unexpected(); return; } reach("stream_error_reported"); skip[f->actor] = 1; }
        if (ex && want_err) reach("stream_eof_reported"); if (!ex && faulted) reach("stream_fault_survived");
        break; }
    case OP_COPY_TO_RAM: case OP_COPY_TO_FS: {
        if (ex) { if (!faulted) unexpected(); break; }
        PathM &t = paths[o.slot]; if (pm.lo != pm.last() || !pm.exists) { halt = true; break; }
        t.log.push_back(pm.cur()); t.pub(); t.exists = true; t.sch = pm.sch; reach(op_name(o.code)); break; }
    case OP_CLOSE_ALL: {
        for (auto &q : paths) { std::vector<int> ls; for (auto &h : q.holders) if (h.proc == proc && h.kind == 'l') ls.push_back(h.slot); for (int l : ls) q.release_end(proc, 'l', l, seq); }
        bool err = !f->badobs.empty(); std::map<int, bool> touched;
        for (auto it = readers.begin(); it != readers.end();) if (it->first.first == proc) { RH &h = it->second; if (h.pending || !h.alts.empty()) { touched[h.path] |= h.tainted; paths[h.path].release_end(proc, 'r', it->first.second, seq); } it = readers.erase(it); } else ++it;
        for (auto it = writers.begin(); it != writers.end();) if (it->first.first == proc) { WH &h = it->second; touched[h.path] |= h.tainted; paths[h.path].release_end(proc, 'w', it->first.second, seq); it = writers.erase(it); } else ++it;
        for (auto &kv : touched) { if (err || kv.second) { settle(kv.first, ("after " + where).c_str()); if (bad) return; } else paths[kv.first].pub(c.plast[kv.first]); }
        break; }
    case OP_FDS: break;
    case OP_QPARSE: {   // parsing is a function of the text alone
        reach(ex ? "parse_errors" : "parses"); auto it = parsed.find(o.s2); if (it == parsed.end()) parsed[o.s2] = {ex, f->obs};
        else if (it->second.first != ex || it->second.second != f->obs) violation("parse-differs", where + " of \"" + o.s2 + "\" gives " + (ex ? "an error: " + f->msg : f->obs) + ", otherwise " + (it->second.first ? "an error" : it->second.second)); break; }
    case OP_FOREIGN: if (!ex && !faulted) pm.foreign[o.s] = o.s2; break;
    default: if (ex && !faulted && !(o.code >= OP_X_OPEN && o.code <= OP_X_TERMID)) unexpected(); break;
    }
    if (!bad && o.mirror) { auto it = results.find(o.mirror); if (it != results.end()) { if (it->second.first != ex) violation("stores-differ", where + " in memory " + (ex ? "fails: " + f->msg : std::string("succeeds")) + ", on disk it " + (it->second.first ? "failed" : "succeeded")); else if (it->second.second != f->obs) violation("stores-differ", where + " in memory differs from the same call on disk: " + first_diff(it->second.second, f->obs)); } else halt = true; }
    if (p.knob.count("nocreate3")) results[o.id] = {ex, f->obs};
    if (!bad) x_end(f, o, ex);
}
bool World::same_state(const State &a, const State &b) { return a.docs.size() == b.docs.size() && a.dump(6) == b.dump(6); }

// a commit that failed may be visible all the same, and be replaced when the same handle tries again: with
// storage errors only what was acknowledged has to stay
size_t World::floor_of(PathM &pm) { return err_faults() ? pm.acked : pm.lo; }
// the state on disk after an error or crash is one of [lo..last]; go on from the one found
// a handle is let in while another one, after a storage error, is still closing: whatever that one left undone, the new one
// builds on, and its own success says nothing about the other's changes
void World::late_taint(int path) {
    if (!err_faults()) return; bool t = false;
    for (auto &kv : writers) t |= kv.second.path == path; for (auto &kv : readers) t |= kv.second.path == path && (kv.second.holds || kv.second.pending);
    if (t) { blind = true; reach("blind_after_error"); }
}
void World::settle(int path, const char *why) {
    PathM &pm = paths[path]; if (pm.ram || blind) { return; }
    // others may have gone on already: what this handle left behind cannot be told apart any more
    { bool others = !pm.acquiring.empty(); for (auto &h : pm.holders) others |= !h.dead; if (others) { blind = true; reach("blind_after_error"); return; } }
    FS c = K->fs.clone(); c.capacity = ~0ull; int m = probe_path(c, path, why, floor_of(pm), pm.last()); if (m < 0) return;
    if ((size_t)m != pm.last()) pm.log.push_back(pm.log[m]);
    pm.lo = pm.last();
}
void World::on_probe(Fiber *f) {   // "what if the machine stopped this process here?"
    if (blind) return;
    for (size_t i = 0; i < paths.size(); i++) if (!paths[i].ram && paths[i].exists && !paths[i].recreating) {
        if (p.only_path >= 0 && (int)i != p.only_path) continue;
        FS c = K->fs.clone(); std::string why = std::string("killed during ") + op_name(ctx[f->actor].op->code) + " (op " + std::to_string(ctx[f->actor].op->id) + ", system call " + std::to_string(f->sys_n) + ")";
        u64 h = c.hash(); if (!K->fsstates.insert(hmix(h, i)).second) { reach("probe_duplicate_state"); continue; }
        int m = probe_path(c, (int)i, why.c_str(), floor_of(paths[i]), paths[i].last()); if (m < 0) return;
        if (p.flags & PF_RECOVER) { if (!probe_recover(c, (int)i, m, why.c_str(), (int)(f->sys_n + p.seed % 97))) return; }
    }
}
void World::on_crash(Process *pr, Fiber *who) {
    { bool open = false; for (auto &kv : writers) open |= kv.first.first == pr->id; if (open || !(who && ctx[who->actor].op && ctx[who->actor].op->code == OP_EXIT)) stats_crashed = true; } stats->crashes++; reach(std::string("crash_in_") + (who && ctx[who->actor].op ? op_name(ctx[who->actor].op->code) : "?"));
    std::set<int> hit;
    for (auto &kv : writers) if (kv.first.first == pr->id) hit.insert(kv.second.path);
    for (auto &kv : readers) if (kv.first.first == pr->id && kv.second.pending) hit.insert(kv.second.path);
    for (auto *f : K->fibers) if (f->proc == pr) { Ctx &c = ctx[f->actor]; if (c.in && c.op) { paths[c.op->path].acquiring.erase(f->actor); hit.insert(c.op->path); c.in = false; } x_crash(f); }
    if (p.flags & PF_KEY) for (size_t i = 0; i < paths.size(); i++) hit.insert((int)i);
    for (auto it = writers.begin(); it != writers.end();) it = it->first.first == pr->id ? writers.erase(it) : std::next(it);
    for (auto it = readers.begin(); it != readers.end();) it = it->first.first == pr->id ? readers.erase(it) : std::next(it);
    for (auto &pm : paths) pm.proc_died(pr->id, ++seq);
    for (int i : hit) if (paths[i].exists) { settle(i, "after the crash"); if (bad) return; }
}
void World::finish() {
    // everything has been closed: the lock is free again
    if (p.knob.count("finalopen")) for (size_t i = 0; i < paths.size() && !bad; i++) if (!paths[i].ram && paths[i].exists && !lock_stuck((int)i) && paths[i].holders.empty()) {
        FS c = K->fs.clone(); c.capacity = ~0ull; reach("final_open"); COp *ow = (COp *)mkcop(OP_OPEN_W, (int)i, 0); ow->cfg = &p.cfgs[0];
        auto r = kernel_probe(c, {ow, mkcop(OP_CLOSE_W, (int)i, 0)});
        for (size_t k = 0; k < 2; k++) if (k >= r.size() || r[k].died || r[k].hung || r[k].excode) { violation("lock-left", std::string(k ? "closing" : "opening") + " a writer after everything has been closed fails: " + (k < r.size() ? r[k].msg : "?")); return; }
    }
    for (size_t i = 0; i < paths.size() && !bad && !blind; i++) if (!paths[i].ram && paths[i].exists) {
        FS c = K->fs.clone(); c.capacity = ~0ull; int m = probe_path(c, (int)i, "at the end of the run", floor_of(paths[i]), paths[i].last()); if (m < 0) return;
        if (p.flags & PF_FINAL_CONT) probe_recover(c, (int)i, m, "at the end of the run", (int)(p.seed % 1009));
    }
    if (!bad) x_finish();
}
void World::fd_check(Fiber *f, Op &o, int ex) {
    if (K->probing) return; int mine = 0; std::string which;
    // a search cut off by a read error is not covered, nor is the one by which an Index with several key fields looks for the predecessor
    bool searches = o.code == OP_SEARCH || o.code == OP_MSEARCH || o.code == OP_SCORES || o.code == OP_X_SEARCH || o.code == OP_X_DELQ;
    if (o.code == OP_X_ADD) for (auto &a : p.actors) for (auto &q : a.ops) if (q->code == OP_X_OPEN && (q->a & 12) == 12) searches = true;
    if (ex > 0 && searches) cut_search.insert({f->proc->id, f->proc->incarnation});
    for (auto &e : f->proc->fds) if (e.used && e.op == o.id) { mine++; which += e.path + " "; }
    bool opening = o.code == OP_OPEN_R || o.code == OP_OPEN_W || o.code == OP_CREATE || o.code == OP_IS_LATEST || o.code == OP_IS_LOCKED || o.code == OP_CLEAR_LOCKS || o.code == OP_EXISTS || o.code == OP_LOCKOBJ || o.code == OP_X_OPEN;
    if (ex > 0 && mine && opening) { violation("handle-leak", std::string(op_name(o.code)) + " (op " + std::to_string(o.id) + ") failed and left " + std::to_string(mine) + " file handle(s) open: " + which); return; }
    if (o.code == OP_CLOSE_ALL) { if (cut_search.count({f->proc->id, f->proc->incarnation})) { reach("handles_not_counted"); return; } for (auto &other : K->fibers) if (&*other != f && other->proc == f->proc && other->st != FS_DONE) return;   // another thread is still at work
        int n = 0; which.clear(); for (auto &e : f->proc->fds) if (e.used) { n++; which += e.path + "(opened by op " + std::to_string(e.op) + ") "; } if (n) violation("handle-leak", "everything is closed but the process still holds " + std::to_string(n) + " file handle(s): " + which); else reach("all_handles_returned"); }
}

// ------------------------------------------------------------------ run
RunResult run_plan(Plan &p, bool replay, const std::map<SwitchKey, int> *sw, const std::map<SwitchKey, FaultRec> *fl, RunStats *st, bool log) {
    p.fin(); p.k.replay = replay; p.k.seed = p.seed; kernel_reset(p.k); K->log = log; k_paths = p.paths;
    if (replay) { if (sw) K->sw = *sw; if (fl) K->fl = *fl; }
    K->fs.capacity = ~0ull;
    World w(p, st); i64 t0 = K->now; st->runs++;
    RunResult res;
    auto done = [&]() {
        res.bad = w.bad; res.cls = w.vcls; res.msg = w.vmsg; res.trace = K->trace; res.sched = K->sched_hash; res.log = K->logbuf; res.sw = K->sw; res.fl = K->fl;
        st->nsys += K->nsys; st->nswitch += K->nswitch; st->simus += (u64)(K->now - t0); for (int i = 0; i < F_MAX; i++) { st->faults[i] += K->fault_count[i]; } for (int i = 0; i < SK_MAX; i++) st->sys[i] += K->sys_count[i];
        u64 nf = 0; for (int i = 1; i < F_MAX; i++) nf += K->fault_count[i]; res.nontrivial = nf + K->nswitch > 0;
        for (auto *pr : K->procs) if (pr->alive) kernel_kill(pr);
        return res;
    };
    if (!w.setup()) return done();
    K->fs.capacity = p.capacity;
    int np = 0; for (auto &a : p.actors) np = std::max(np, a.proc + 1);
    for (int i = 0; i < np; i++) { kernel_new_proc(); kernel_boot(K->procs[i]); }
    for (size_t i = 0; i < p.actors.size(); i++) K->fibers.push_back(kernel_fiber((int)i, K->procs[p.actors[i].proc]));
    kernel_next_op = [&](Fiber *f) { return w.next_op(f); };
    K->on_mark = [&](Fiber *f, int) { auto &c = w.ctx[f->actor]; c.hi_open = w.paths[c.op->path].last() + 1; };
    if (p.flags & PF_FDS) K->on_bad_fd = [&](Fiber *f, int fd) { w.violation("bad-handle", "a file handle that is not open (" + std::to_string(fd) + ") is used or closed"); };
    K->fault_filter = [&](Fiber *f, SysKind, const std::string &) { return true; };
    for (auto *f : K->fibers) kernel_start_fiber(f);
    Fiber *last = K->fibers[0]; bool first = true; u64 steps = 0;
    while (!w.bad) {
        if (++steps > 3000000) { w.violation("no-progress", "the run does not end"); break; }
        // choose who runs
        std::vector<Fiber *> run; i64 wake = -1; bool live = false;
        for (auto *f : K->fibers) { if (f->st == FS_SLEEP && f->wake <= K->now) f->st = FS_READY; if (f->st == FS_READY) run.push_back(f); else if (f->st == FS_SLEEP && (wake < 0 || f->wake < wake)) wake = f->wake; if (f->st != FS_DONE && f->st != FS_DEAD) live = true; }
        if (!live) break;
        if (run.empty()) {
            if (wake < 0) { std::string who; for (auto *f : K->fibers) if (f->st == FS_BLOCKED) who += " actor " + std::to_string(f->actor) + " in " + (f->op ? op_name(f->op->code) : "?"); w.violation("deadlock", "nobody can run:" + who + " wait for a mutex that is never released"); break; }
            K->now = wake; for (auto *f : K->fibers) if (f->st == FS_SLEEP && f->wake <= K->now) { f->st = FS_READY; run.push_back(f); }
        }
        Fiber *dflt = std::find(run.begin(), run.end(), last) != run.end() && !first ? last : run[0]; Fiber *pick = dflt;
        if (run.size() > 1 || replay) {
            SwitchKey key = first ? SwitchKey{-1, -1, 's', 0} : K->ykey;
            if (replay) { auto it = K->sw.find(key); if (it != K->sw.end()) for (auto *f : run) if (f->actor == it->second) pick = f; }
            else { pick = run[K->rs.below((u32)run.size())]; if (pick != dflt || K->reason == R_YIELD) K->sw[key] = pick->actor; }
        }
        first = false;
        if (pick != last) { K->nswitch++; K->sched_hash = hmix(K->sched_hash, (u64)pick->actor * 1000003 + (u64)(pick->op ? pick->op->id : 0) * 131 + pick->sync_n + (pick->bb_done << 20)); K->trace = hmix(K->trace, (u64)pick->actor + 0x1000); }
        last = pick;
    again:
        Reason r = kernel_resume(pick); w.mixed_now = pick->mixed;
        switch (r) {
        case R_OPBEGIN: w.on_begin(pick); if (w.bad) break; goto again;
        case R_OPEND:
            if (pick->st == FS_DONE) break;
            w.on_end(pick); if (w.bad) break;
            if (w.ctx[pick->actor].op->code == OP_EXIT) goto crash;
            break;
        case R_YIELD: case R_SLEEP: case R_BLOCK: break;
        case R_PROBE: w.on_probe(pick); if (w.bad) break; goto again;
        case R_CRASH: crash: {
            Process *pr = pick->proc; K->event("CRASH", "", pr->id);
            for (auto *f : K->fibers) if (f->proc == pr && f->st != FS_DONE) { w.skip[f->actor] = 2; w.after_crash_pending[f->actor] = 1; f->st = FS_DEAD; }
            std::vector<Fiber *> revive; for (auto *f : K->fibers) if (f->proc == pr && f->st == FS_DEAD) revive.push_back(f);
            std::vector<Fiber *> donef; for (auto *f : K->fibers) if (f->proc == pr && f->st == FS_DONE) donef.push_back(f);
            kernel_kill(pr); for (auto *f : donef) f->st = FS_DONE;
            w.on_crash(pr, pick); if (w.bad) break;
            kernel_boot(pr); for (auto *f : revive) kernel_start_fiber(f);
            break; }
        case R_DIED: w.violation("process-died", std::string(pick->op ? op_name(pick->op->code) : "?") + " (op " + std::to_string(pick->op ? pick->op->id : -1) + ") brings the process down: " + K->die_msg); break;
        case R_HANG: w.violation("hang", std::string(pick->op ? op_name(pick->op->code) : "?") + " (op " + std::to_string(pick->op ? pick->op->id : -1) + ") does not return (" + std::to_string(pick->bb_done / 1000000) + " million steps, " + std::to_string((K->now - pick->t0 - pick->stalled) / 1000000) + " s)"); break;
        default: break;
        }
    }
    if (!w.bad) w.finish();
    return done();
}
