// Oracles for the Index object: one-at-a-time histories (C09) and unique keys (C16), and for searches.
#include "world.h"
#include <algorithm>
#include <unordered_set>

// ------------------------------------------------------------------ sequential model of an Index
typedef std::vector<MDocP> Slots;   // document numbers; a hole is a deleted document
static bool live_term(const MDocP &d, const std::string &f, const std::string &t) { return d && doc_has_term(*d, f, t); }
static std::vector<std::string> key_fields(int flags) { std::vector<std::string> k; if (flags & 4) k.push_back("id"); if (flags & 8) k.push_back("tag"); return k; }
static bool key_match(const MDocP &d, const Op &o, const std::vector<std::string> &key) {
    if (!d || key.empty()) return false;
    for (auto &k : key) { const std::string *v = nullptr; for (auto &f : o.doc->f) if (f.name == k && !f.vals.empty()) { v = &f.vals[0]; break; } if (!v) { if (key.size() == 1) return false; continue; } if (!doc_has_term(*d, k, *v)) return false; }
    return true;
}
static State live_of(const Slots &s) { State st; for (auto &d : s) if (d) st.docs.push_back(d); return st; }
static bool term_like(const QP &q, const MDocP &d) { State st; st.docs.push_back(d); return q_match(q, st, 0); }
// can the operation have this outcome in this state? the state afterwards
bool World::x_apply(const Slots &a, const HistEv &e, Slots &b) {
    const Op &o = *e.op; int flags = e.flags; b = a;
    int ex = e.ex; auto num = [&]() { return atoi(e.obs.c_str()); };
    if (ex && e.excused) return true;      // refused: nothing happened
    switch (o.code) {
    case OP_X_ADD: { if (ex) return false; auto k = key_fields(flags); for (auto &d : b) if (key_match(d, o, k)) d = nullptr; b.push_back(make_mdoc_cached(o)); return true; }
    case OP_X_DELID: case OP_X_DELTERM: { if (ex) return false; for (auto &d : b) if (live_term(d, o.code == OP_X_DELID ? "id" : o.s, o.s2)) d = nullptr; return true; }
    case OP_X_DELDOC: if (ex) return false; if (o.a < (int)b.size()) b[o.a] = nullptr; return true;
    case OP_X_DELQ: if (ex) return false; for (auto &d : b) if (d && term_like(o.se[0].q, d)) d = nullptr; return true;
    case OP_X_SIZE: { if (ex) return false; int n = 0; for (auto &d : a) n += d != nullptr; return n == num(); }
    case OP_X_HASDEL: { if (ex) return false; bool h = false; for (auto &d : a) h |= !d; return h == (num() != 0); }
    case OP_X_ISDEL: if (o.a >= (int)a.size()) return ex != 8; if (ex) return false; return (num() != 0) == !a[o.a];
    case OP_X_OPTIMIZE: { if (ex) return false; b.clear(); for (auto &d : a) if (d) b.push_back(d); return true; }
    case OP_X_GETDOC: if (o.a >= (int)a.size()) return ex > 0; if (!a[o.a]) return ex == 8; return !ex && e.obs == a[o.a]->stored;
    case OP_X_GETID: { if (ex) return false; for (auto &d : a) if (live_term(d, "id", o.s2)) return e.obs == d->stored; return e.obs == "none\n"; }
    default: return !ex;
    }
}
MDocP World::make_mdoc_cached(const Op &o) { auto &m = xdocs[o.id]; if (!m) m = make_mdoc(o.id, o.doc, paths[o.path].sch); return m; }
static u64 slots_hash(const Slots &s) { u64 h = 77; for (auto &d : s) h = hmix(h, d ? (u64)d->uid + 1 : 0); return h; }

struct Lin { World &w; std::vector<HistEv> &h; std::string final; std::unordered_set<u64> seen; u64 nodes = 0; size_t best = 0; bool final_seen = false;
    bool go(u64 mask, size_t done, const Slots &s) {
        if (++nodes > 2000000) return true;   // give up without an alarm
        if (done > best) best = done;
        if (done == h.size()) { final_seen = true; return live_of(s).dump(15) == final; }
        if (!seen.insert(hmix(hmix(mask, slots_hash(s)), done)).second) return false;
        u64 first_end = ~0ull; for (size_t i = 0; i < h.size(); i++) if (!((mask >> i) & 1)) first_end = std::min(first_end, h[i].t1);
        for (size_t i = 0; i < h.size(); i++) if (!((mask >> i) & 1) && h[i].t0 < first_end) { Slots b; if (w.x_apply(s, h[i], b) && go(mask | 1ull << i, done + 1, b)) return true; }
        return false;
    } };

static bool xop(int c) { return c >= OP_X_OPEN && c <= OP_X_TERMID; }
void World::x_begin(Fiber *f, Op &o) {
    if (!xop(o.code)) return; Ctx &c = ctx[f->actor]; int proc = f->proc->id; c.xt0 = ++seq;
    if (p.flags & PF_LIN) return;
    if (!(p.flags & PF_KEY)) return;
    PathM &pm = paths[o.path]; int fl = xflags.count({proc, o.slot}) ? xflags[{proc, o.slot}] : -1; if (fl < 0 && o.code != OP_X_OPEN) return;
    auto prefix = [&](std::function<bool(const MDocP &)> del) {   // each document goes by itself
        StateP cur = pm.cur(); for (size_t i = 0; i < cur->docs.size();) if (del(cur->docs[i])) { auto n = std::make_shared<State>(); n->docs = cur->docs; n->docs.erase(n->docs.begin() + (long)i); pm.log.push_back(n); cur = n; } else i++; };
    switch (o.code) {
    case OP_X_ADD: { auto k = key_fields(fl); prefix([&](const MDocP &d) { return key_match(d, o, k); }); pm.log.push_back(st_add(pm.cur(), make_mdoc_cached(o))); break; }
    case OP_X_DELID: prefix([&](const MDocP &d) { return doc_has_term(*d, "id", o.s2); }); break;
    case OP_X_DELTERM: prefix([&](const MDocP &d) { return doc_has_term(*d, o.s, o.s2); }); break;
    case OP_X_DELQ: prefix([&](const MDocP &d) { return term_like(o.se[0].q, d); }); break;
    default: break;
    }
    c.plast[o.path] = pm.last(); pm.touched = seq;
}
void World::x_end(Fiber *f, Op &o, int ex) {
    if (!xop(o.code)) return; Ctx &c = ctx[f->actor]; int proc = f->proc->id; auto key = std::make_pair(proc, o.slot);
    std::string where = std::string(op_name(o.code)) + " (op " + std::to_string(o.id) + ")";
    bool faulted = acceptable_error(f, o, c) || ((p.flags & PF_FAULTY) && err_faults());
    if (o.code == OP_X_OPEN) { if (ex) { if (!faulted) violation("unexpected-error", where + " fails although nothing is wrong: " + f->msg); } else xflags[key] = o.a; return; }
    if (p.flags & PF_LIN) {
        HistEv e; e.actor = f->actor; e.op = &o; e.t0 = c.xt0; e.t1 = ++seq; e.ex = ex; e.obs = f->obs; e.flags = xflags[key]; e.pending = false;
        e.excused = ex && p.knob.count("many") && (ex == 12 || ex == 8) && o.code != OP_X_GETDOC && o.code != OP_X_ISDEL; if (e.excused) reach(ex == 12 ? "ix_lock_error" : "ix_stale_error");
        if (ex && !e.excused && o.code != OP_X_GETDOC && o.code != OP_X_ISDEL) { violation("unexpected-error", where + " fails although nothing is wrong: " + f->msg); return; }
        if (o.code == OP_X_CLOSE) xflags.erase(key); else if (o.code != OP_X_FLUSH) hist.push_back(e);
        return;
    }
    if (!(p.flags & PF_KEY)) { if (ex && !faulted && !p.knob.count("xany")) violation("unexpected-error", where + " fails although nothing is wrong: " + f->msg); if (o.code == OP_X_CLOSE) xflags.erase(key); return; }
    PathM &pm = paths[o.path]; int fl = xflags[key]; StateP cur = pm.cur();
    if (ex) { violation("unexpected-error", where + " fails although nothing is wrong: " + f->msg); return; }
    switch (o.code) {
    case OP_X_ADD: case OP_X_DELID: case OP_X_DELTERM: case OP_X_DELQ: if (fl & 2) pm.pub(); break;
    case OP_X_OPTIMIZE: case OP_X_FLUSH: pm.pub(); break;
    case OP_X_CLOSE: pm.pub(); xflags.erase(key); break;
    case OP_X_SIZE: if (atoi(f->obs.c_str()) != (int)cur->docs.size()) violation("key-wrong", where + " gives " + f->obs.substr(0, f->obs.size() - 1) + ", there are " + std::to_string(cur->docs.size()) + " documents"); break;
    case OP_X_GETID: { std::string want = "none\n"; for (auto &d : cur->docs) if (doc_has_term(*d, "id", o.s2)) { want = d->stored; break; } if (f->obs != want) violation("key-wrong", where + " of " + o.s2 + ": " + first_diff(want, f->obs)); break; }
    case OP_X_DUMP: if (f->obs != cur->dump(o.a)) violation("key-wrong", where + ": " + first_diff(cur->dump(o.a), f->obs)); break;
    default: break;
    }
}
void World::x_crash(Fiber *f) { for (auto it = xflags.begin(); it != xflags.end();) it = it->first.first == f->proc->id ? xflags.erase(it) : std::next(it); }
void World::x_finish() {
    if (!(p.flags & PF_LIN) || bad || !xflags.empty()) return;   // not closed: what is on disk says nothing
    FS c = K->fs.clone(); c.capacity = ~0ull; stats->probes++;
    COp *o1 = new COp(); COp *o2 = new COp(); memset(o1, 0, sizeof *o1); memset(o2, 0, sizeof *o2); o1->id = o2->id = 9000; o1->code = OP_OPEN_R; o1->a = 15; o2->code = OP_CLOSE_ALL; o1->s = o1->s2 = o2->s = o2->s2 = "";
    auto r = kernel_probe(c, {o1, o2}); delete o1; delete o2;
    if (r.empty() || r[0].died || r[0].hung || r[0].excode) { violation("unreadable", "at the end a new process cannot open the index: " + (r.empty() ? std::string("?") : r[0].msg)); return; }
    if (!r[0].badobs.empty()) { bool b0 = blind; blind = false; violation("inconsistent", "at the end the index is inconsistent: " + r[0].badobs.substr(0, 200)); blind = b0; return; }
    reach("histories_checked"); stats->reach["history_ops"] += hist.size();
    std::sort(hist.begin(), hist.end(), [](const HistEv &a, const HistEv &b) { return a.t0 < b.t0; });
    size_t conc = 0; for (size_t i = 0; i + 1 < hist.size(); i++) if (hist[i].t1 > hist[i + 1].t0) conc++; stats->reach["overlapping_ops"] += conc;
    Lin l{*this, hist, r[0].obs, {}, 0, 0, false}; if (hist.size() > 60) return;
    if (!l.go(0, 0, {})) {
        std::string t; for (auto &e : hist) { std::string ob = e.obs.substr(0, 40); for (auto &ch : ob) if (ch == '\n') ch = ' '; t += "\n    actor " + std::to_string(e.actor) + " [" + std::to_string(e.t0) + ".." + std::to_string(e.t1) + "] " + op_str(*e.op).substr(0, 90) + " -> " + (e.ex ? "error " + std::to_string(e.ex) : ob); }
        std::string fin = r[0].obs.substr(0, r[0].obs.find('\n')); t += "\n    at the end: " + fin;
        violation("not-one-at-a-time", std::string(l.final_seen ? "no order of the calls explains all results and the final contents" : "no order of the calls explains their results") + ":" + t);
    }
}
// ---------------------------------------------------------------- searches against brute force
// a query that leaves documents out by a pattern, which is expanded to the terms of an index
static bool excl_pattern(const QP &q, bool neg) {
    if (!q) return false; int t = q->type;
    if (neg && (t == Q_PREFIX || t == Q_WILD || t == Q_FUZZY || t == Q_SPANPREFIX)) return true;
    for (size_t i = 0; i < q->ch.size(); i++) if (excl_pattern(q->ch[i], neg || (t == Q_BOOL && q->occ[i] == 2) || (t == Q_SPANNOT && i == 1))) return true;
    return false;
}
void World::check_search(Fiber *f, Op &o) {
    State all; int proc = p.actors[f->actor].proc;
    for (int i = 0; i < 12; i++) if (o.code == OP_SEARCH ? i == o.slot : (o.a >> i) & 1) {
        auto it = readers.find({proc, i}); if (it == readers.end()) return; RH &r = it->second; if (r.tainted || blind || !r.view || r.cand.size() > 1) { reach("search_not_judged"); return; }
        all.docs.insert(all.docs.end(), r.view->docs.begin(), r.view->docs.end());
    }
    bool one = o.code == OP_SEARCH || o.b == 1; std::string want; const std::string &got = f->obs; size_t at = 0;
    auto line = [&](std::string &l) { size_t e = got.find('\n', at); if (e == std::string::npos) return false; l = got.substr(at, e - at); at = e + 1; return true; };
    auto ints = [](const std::string &l) { std::vector<int> v; const char *c = strchr(l.c_str(), ':'); if (!c) return v; c++; char *e; for (;;) { long x = strtol(c, &e, 10); if (e == c) break; v.push_back((int)x); c = e; } return v; };
    auto str = [](const std::vector<int> &v) { std::string r; for (size_t i = 0; i < v.size() && i < 24; i++) r += " " + std::to_string(v[i]); return r + (v.size() > 24 ? " ..." : ""); };
    for (auto &s : o.se) {
        std::vector<int> hits; for (int i = 0; i < (int)all.docs.size(); i++) if (q_match(s.q, all, i) && (!s.filter || q_match(s.filter, all, i))) hits.push_back(i);
        std::string w = op_name(o.code) + std::string(" ") + std::to_string(o.id) + " " + q_str(s.q) + (s.filter ? " filter " + q_str(s.filter) : "") + " over " + std::to_string(all.docs.size()) + " documents"; std::string l;
        if (!line(l)) { violation("search", w + ": no answer"); return; }
        if (l[0] == 'X') { int ex = atoi(l.c_str() + 2); bool may = ex == 5 && s.sort > 1 && (!sort_possible(all, s.sf) || (s.sort2 > 1 && !sort_possible(all, s.sf2))); if (o.code == OP_MSEARCH && o.b == 0 && s.sort > 1) may = true; if (!may) { violation("search-error", w + ": fails: " + l); return; } reach("sort_refused"); continue; }
        stats->reach["searches"]++; if (!hits.empty()) stats->reach["searches_with_hits"]++; if (hits.empty()) reach("searches_without_hits"); reach("query:" + q_str(s.q).substr(0, q_str(s.q).find('(')));
        for (int pass = 0; pass < (s.cached ? 2 : 1); pass++) {
            if (pass && !line(l)) { violation("search", w + ": no second answer"); return; }
            int tot = -1, sz = -1; sscanf(l.c_str(), "H total=%d size=%d", &tot, &sz); std::vector<int> v = ints(l);
            if (tot != (int)hits.size()) { violation(o.code == OP_MSEARCH && o.b == 0 && tot > (int)hits.size() && excl_pattern(s.q, false) ? "multi-excluded-pattern" : "search-total", w + ": reports " + std::to_string(tot) + " hits, " + std::to_string(hits.size()) + " documents match:" + str(hits) + "; answer:" + str(v)); return; }
            std::vector<int> ex = hits; if (s.sort) sort_hits(ex, all, s);
            int n = std::max(0, (int)hits.size() - s.first); if (s.num >= 0) n = std::min(n, s.num);
            if (sz != n || (int)v.size() != n) { violation("search-page", w + ": page of " + std::to_string(sz) + " hits instead of " + std::to_string(n)); return; }
            if (s.sort) { ex = std::vector<int>(ex.begin() + std::min<size_t>((size_t)s.first, ex.size()), ex.begin() + std::min<size_t>((size_t)s.first, ex.size()) + n); if (v != ex) { violation("search-order", w + " sort " + std::to_string(s.sort) + (s.rev ? "r " : " ") + s.sf + " then " + std::to_string(s.sort2) + " " + s.sf2 + ": order" + str(v) + " instead of" + str(ex)); return; } reach("sorted_searches"); }
            else { std::vector<int> u = v; std::sort(u.begin(), u.end()); for (size_t i = 0; i < u.size(); i++) if ((i && u[i] == u[i - 1]) || !std::binary_search(hits.begin(), hits.end(), u[i])) { violation("search-hits", w + ": answer" + str(v) + " but the matching documents are" + str(hits)); return; } }
            if (n < (int)hits.size()) reach("partial_pages");
        }
        if (s.num < 0 && !s.sort) {
            if (!line(l) || l[0] != 'E') { violation("search", w + ": no E line: " + l); return; }
            std::vector<int> v = ints(l), u = v; std::sort(u.begin(), u.end()); if (u != hits || (one && v != u)) { violation("search-each", w + ": search_each visits" + str(v) + " instead of" + str(hits)); return; }
            if (!s.filter && s.first == 0) { if (!line(l) || l[0] != 'U') { violation("search", w + ": no U line: " + l); return; } v = ints(l); if (v != hits) { violation("search-unscored", w + ": search_unscored gives" + str(v) + " instead of" + str(hits)); return; } }
            if (!s.filter && s.first == 0 && s.rev2) { line(l); int from = atoi(l.c_str() + 2); v = ints(l); std::vector<int> ex; for (int h : hits) if (h >= from) ex.push_back(h); if (v != ex) { violation("search-unscored", w + ": search_unscored from rank " + std::to_string(from) + " gives" + str(v) + " instead of" + str(ex)); return; } }
        }
    }
    if (at < got.size()) violation("search", "trailing answer " + got.substr(at, 100));
}
// ---------------------------------------------------------------- scores against the same documents in one segment
void World::check_scores(Fiber *f, Op &o) {
    State all; int proc = p.actors[f->actor].proc, n = 0;
    for (int i = 0; i < 12; i++) if ((o.a >> i) & 1) {
        auto it = readers.find({proc, i}); if (it == readers.end()) return; RH &r = it->second; if (r.tainted || blind || !r.view || r.cand.size() > 1) { reach("search_not_judged"); return; }
        all.docs.insert(all.docs.end(), r.view->docs.begin(), r.view->docs.end()); n++;
    }
    const std::string &got = f->obs; if (got.compare(0, 9, "deletions") == 0) { reach("scores_with_deletions"); return; }
    // the same documents, written at once to an index that knows the same fields
    SchemaSpec sch = p.schemas[p.path_schema[o.path]]; { size_t e = got.find('\n'); std::string l = got.substr(2, e - 2) + " ", w; for (char ch : l) if (ch != ' ') w += ch; else { if (!w.empty() && !sch.find(w)) sch.f.push_back(sch.get(w)); w.clear(); } }
    std::vector<CSchemaField> csf; for (auto &x : sch.f) csf.push_back(CSchemaField{x.name.c_str(), x.store, x.index, x.tv, x.boost}); CSchema cs{(int)csf.size(), csf.data(), sch.dstore, sch.dindex, sch.dtv};
    FS c; c.dirs = K->fs.dirs; std::vector<std::shared_ptr<Op>> keep; std::vector<const COp *> ops; CConfig cfg{1 << 20, 1 << 24, 128, 16, 10, 100000, 0x7fffffff, 10000, 1};
    auto mk = [&](int code) { auto x = std::make_shared<Op>(); x->id = 9500; x->code = code; x->path = o.path; x->slot = 0; keep.push_back(x); return x; };
    auto x = mk(OP_CREATE); x->schema = p.path_schema[o.path]; mk(OP_OPEN_W);
    std::vector<int> perm; for (size_t i = 0, N = all.docs.size(); i < N; i++) perm.push_back(o.b == 1 ? (int)(N - 1 - i) : (int)((i + (size_t)o.b) % N)); // twin document i = document perm[i]
    for (int i : perm) { x = mk(OP_ADD); x->doc = std::make_shared<DocSpec>(*all.docs[i]->d); }
    mk(OP_CLOSE_W); x = mk(OP_OPEN_R);
    for (size_t i = 0; i < perm.size(); i++) { auto &md = all.docs[perm[i]]; auto fresh = make_mdoc(0, md->d, md->sch); for (auto &kv : md->norm) { auto it = fresh->norm.find(kv.first); if (it != fresh->norm.end() && it->second != kv.second) { x = mk(OP_RNORM); x->a = (int)i; x->s = kv.first; x->b = kv.second; } } }
    x = mk(OP_SCORES); x->a = 1; x->b = 0; x->se = o.se; mk(OP_CLOSE_ALL);
    for (auto &k : keep) { k->fin(p); if (k->code == OP_OPEN_W) k->co.cfg = &cfg; if (k->code == OP_CREATE) k->co.schema = &cs; ops.push_back(&k->co); }
    stats->probes++; auto r = kernel_probe(c, ops); size_t si = ops.size() - 2;
    for (size_t i = 0; i < ops.size(); i++) if (i >= r.size() || r[i].died || r[i].hung || r[i].excode > 0) { violation("scores-twin", "the same documents cannot be indexed and searched alone: " + std::string(op_name(ops[i]->code)) + ": " + (i < r.size() ? r[i].msg : "?")); return; }
    auto lines = [](const std::string &s) { std::vector<std::string> v; size_t a = 0, e; while ((e = s.find('\n', a)) != std::string::npos) { v.push_back(s.substr(a, e - a)); a = e + 1; } return v; };
    auto parse = [](const std::string &l) { std::map<int, double> m; const char *q = strchr(l.c_str(), ':'); if (!q) return m; q++; char *e; for (;;) { long d = strtol(q, &e, 10); if (e == q || *e != '=') break; q = e + 1; m[(int)d] = strtod(q, &e); q = e; } return m; };
    std::vector<std::string> A = lines(got), B = lines(r[si].obs); size_t ia = 1, ib = 1;
    for (auto &s : o.se) {
        std::string w = std::string(n > 1 ? "multi-reader " : "") + "search " + std::to_string(o.id) + " " + q_str(s.q) + (s.filter ? " filter " + q_str(s.filter) : "") + " over " + std::to_string(all.docs.size()) + " documents";
        if (ia >= A.size() || ib >= B.size()) { violation("scores", w + ": no answer"); return; }
        auto ma = parse(A[ia++]), mt = parse(B[ib++]); std::map<int, double> mb; for (auto &kv : mt) mb[kv.first >= 0 && kv.first < (int)perm.size() ? perm[kv.first] : -1] = kv.second; reach("scored_searches"); stats->reach["scores_compared"] += ma.size();
        for (auto &kv : mb) { auto it = ma.find(kv.first); if (it == ma.end()) { violation("scores-hits", w + ": document " + std::to_string(kv.first) + " is not found, but is when the same documents are added at once"); return; }
            double d = it->second - kv.second; if (d < 0) d = -d; if (!(d <= 1e-6 + 1e-4 * (kv.second < 0 ? -kv.second : kv.second))) { violation("scores-differ", w + ": document " + std::to_string(kv.first) + " scores " + std::to_string(it->second) + ", and " + std::to_string(kv.second) + " when the same documents are added at once"); return; } }
        if (ma.size() != mb.size()) { violation("scores-hits", w + ": " + std::to_string(ma.size()) + " hits, " + std::to_string(mb.size()) + " when the same documents are added at once"); return; }
    }
}
