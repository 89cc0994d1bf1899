// Workload generators: one per property, everything drawn from the seed.
#include "plan.h"
#include <algorithm>

struct Gen {
    Plan p; Rng g; int ndoc = 0; std::vector<std::string> words; int keyspace = 0; bool oddkeys = false; bool big = true; int maxwords = 10; double p_norm = .3, p_dyn = 0.15, p_bigdoc = 0.06; int ndyn = 6;
    Gen(const std::string &prop, u64 seed) : g(hmix(hstr(prop), seed)) {
        p.prop = prop; p.seed = seed; p.k.fill_seed = g.next(); p.k.syscall_us = g.pick(std::vector<int>{1, 20, 200}); p.k.dir_shuffle = true;
        static const char *w[] = {"alpha", "beta", "gamma", "delta", "eps", "zeta", "eta", "theta", "iota", "kappa", "lambda", "mu", "al", "alp", "alphas", "bet", "a", "b", "c"};
        int n = g.range(4, 19); for (int i = 0; i < n; i++) words.push_back(w[i]);
        for (int i = 0, m = g.range(0, 12); i < m; i++) words.push_back("w" + std::to_string(g.below(500)));
        if (g.chance(.08)) ndyn = g.range(12, 40);
        if (g.chance(.05)) { std::string pre(g.pick(std::vector<int>{3, 60, 126, 127, 128, 200}), 'p'); for (size_t i = 0; i < words.size(); i++) if (g.chance(.6)) words[i] = pre + words[i]; }
    }
    const std::string &word() { u32 a = g.below((u32)words.size()), b = g.below((u32)words.size()); return words[std::min(a, b)]; }
    SchemaSpec schema() {
        SchemaSpec s; auto P = [&](std::vector<int> v) { return g.pick(v); }; auto B = [&]() { return g.chance(.8) ? 1.0f : g.pick(std::vector<float>{2.0f, 0.5f, 4.0f}); };
        s.f.push_back({"id", P({1, 1, 1, 2}), P({1, 1, 5}), 0, 1.0f});
        s.f.push_back({"body", P({0, 1, 1, 2}), P({3, 3, 3, 7}), P({0, 1, 3, 5, 7, 7}), B()});
        s.f.push_back({"tag", P({0, 1}), P({1, 5}), P({0, 0, 1, 7}), B()});
        s.f.push_back({"num", 1, P({1, 5}), 0, 1.0f});
        s.f.push_back({"big", P({1, 2}), 0, 0, 1.0f});
        s.dstore = P({0, 1, 1}); s.dindex = P({3, 3, 1, 7}); s.dtv = P({0, 0, 7}); return s;
    }
    CConfig config() {
        CConfig c; c.chunk_size = g.pick(std::vector<int>{1 << 16, 1 << 18, 1 << 20}); c.max_buffer_memory = g.pick(std::vector<int>{1 << 18, 1 << 20, 1 << 24});
        c.index_interval = g.pick(std::vector<int>{2, 3, 8, 128}); c.skip_interval = g.pick(std::vector<int>{2, 3, 4, 16}); c.merge_factor = g.pick(std::vector<int>{2, 2, 3, 4, 10});
        c.max_buffered_docs = g.pick(std::vector<int>{2, 2, 3, 4, 7, 20}); c.max_merge_docs = g.chance(.2) ? g.range(2, 20) : 0x7fffffff; c.max_field_length = 10000; c.use_compound = g.chance(.6); return c;
    }
    int add_path(const std::string &name, int sch) { p.paths.push_back(name); p.path_schema.push_back(sch); return (int)p.paths.size() - 1; }
    void base(int npath = 1, int ncfg = 2) { p.schemas.push_back(schema()); for (int i = 0; i < ncfg; i++) p.cfgs.push_back(config()); for (int i = 0; i < npath; i++) add_path("/d" + std::to_string(i), 0); }
    std::string text(int n) { std::string s; for (int i = 0; i < n; i++) { if (i) s += g.chance(.05) ? "  " : " "; s += word(); } return s; }
    std::string blob(int n) { std::string s; s.reserve(n); int m = g.below(3); for (int i = 0; i < n; i++) s += m == 0 ? (char)(1 + g.below(255)) : m == 1 ? (char)('a' + i % 7) : (char)('A' + g.below(26)); return s; }
    static std::string odd(u32 i) { static const std::vector<std::string> k = {"", "k", "k1", "K1", "k 1", " k1", std::string(120, 'k'), std::string(254, 'q'), std::string(253, 'q'), "k1\xc3\xa9", "\xc3\xa9", "1", "-1", "k1k1", "*", "k1?"}; return k[i % k.size()]; }
    std::string key() { if (keyspace && oddkeys && g.chance(.7)) return odd(g.below((u32)keyspace * 3)); return keyspace ? "k" + std::to_string(g.below((u32)keyspace)) : "d" + std::to_string(++ndoc); }
    std::shared_ptr<DocSpec> doc() {
        auto d = std::make_shared<DocSpec>(); if (g.chance(.1)) d->boost = g.pick(std::vector<float>{2.0f, 0.25f, 8.0f});
        auto add = [&](const std::string &n, std::vector<std::string> v) { FieldSpec f; f.name = n; f.vals = v; if (g.chance(.05)) f.boost = 2.0f; d->f.push_back(f); };
        add("id", {key()});
        if (g.chance(.92)) { std::vector<std::string> v; int n = g.chance(.15) ? g.range(2, 3) : 1; for (int i = 0; i < n; i++) v.push_back(text(g.range(g.chance(.05) ? 0 : 1, maxwords))); add("body", v); }
        if (g.chance(.5)) { std::vector<std::string> v; for (int i = 0, n = g.range(1, 3); i < n; i++) v.push_back(g.chance(.1) ? word() + " " + word() : g.chance(.02) ? std::string((size_t)g.range(252, 300), (char)('r' + g.below(3))) : word()); add("tag", v); }
        if (g.chance(.4)) add("num", {std::to_string(g.range(-20, 200))});
        if (big && g.chance(p_bigdoc)) { std::vector<std::string> v; for (int i = 0, n = g.range(1, 2); i < n; i++) v.push_back(blob(g.pick(std::vector<int>{0, 1, 100, 1000, 1023, 1024, 1025, 3000, 9000, 16000}))); add("big", v); }
        while (g.chance(ndyn > 6 ? .75 : p_dyn)) { std::string n = "x" + std::to_string(g.below((u32)ndyn)); bool dup = false; for (auto &f : d->f) dup |= f.name == n; if (!dup) add(n, {text(g.range(1, 3))}); }
        if (g.chance(.2)) std::reverse(d->f.begin(), d->f.end());
        return d;
    }
    // a term that may or may not occur
    void term(std::string &f, std::string &t) { u32 r = g.below(10); if (r < 4) { f = "id"; t = keyspace ? key() : "d" + std::to_string(1 + g.below((u32)ndoc + 1)); } else if (r < 8) { f = "body"; t = word(); } else if (r < 9) { f = "tag"; t = word(); } else { f = "x" + std::to_string(g.below((u32)ndyn)); t = word(); } }
    std::string normfield() { u32 r = g.below(20); return r < 11 ? "body" : r < 15 ? "tag" : r < 16 ? "id" : r < 17 ? "num" : "x" + std::to_string(g.below((u32)ndyn)); }
    // a past of many small commits, so that generation and segment numbers have more than one digit
    void warm(int actor, int path, int slot, int sess) {
        openw(actor, path, slot, sess); for (int i = 0, n = g.range(30, 60); i < n; i++) { if (g.chance(.8)) { OpP o = put(actor, OP_ADD, path, slot, sess); o->doc = doc(); } else { OpP o = put(actor, OP_DELTERM, path, slot, sess); term(o->s, o->s2); } put(actor, OP_COMMIT, path, slot, sess); }
        OpP o = put(actor, OP_CLOSE_W, path, slot, sess); o->cleanup = true;
    }
    struct WMix { double add = 10, del = 1.5, dels = .5, commit = 1.2, opt = .3, count = .3; int n_lo = 5, n_hi = 30; };
    void writer_ops(int actor, int path, int slot, int sess, const WMix &m, int n) {
        double tot = m.add + m.del + m.dels + m.commit + m.opt + m.count;
        for (int i = 0; i < n; i++) {
            double r = tot * (double)(g.next() >> 11) / 9007199254740992.0; OpP o;
            if ((r -= m.add) < 0) { o = p.op(actor, OP_ADD, path, slot); o->doc = doc(); }
            else if ((r -= m.del) < 0) { o = p.op(actor, OP_DELTERM, path, slot); term(o->s, o->s2); }
            else if ((r -= m.dels) < 0) { o = p.op(actor, OP_DELTERMS, path, slot); std::string t; term(o->s, t); o->strs.push_back(t); for (int k = g.below(3); k >= 0; k--) { std::string f2; for (int z = 0; z < 6; z++) { term(f2, t); if (f2 == o->s) { o->strs.push_back(t); break; } } } }
            else if ((r -= m.commit) < 0) o = p.op(actor, OP_COMMIT, path, slot);
            else if ((r -= m.opt) < 0) o = p.op(actor, OP_OPTIMIZE, path, slot);
            else o = p.op(actor, OP_DOCCOUNT, path, slot);
            o->sess = sess;
        }
    }
    OpP put(int actor, int code, int path, int slot, int sess = 0) { OpP o = p.op(actor, code, path, slot); o->sess = sess; return o; }
    OpP openr(int actor, int path, int slot, int sess = 0) { OpP o = put(actor, OP_OPEN_R, path, slot, sess); o->a = p.dump_flags; return o; }
    OpP dump(int actor, int path, int slot, int sess = 0) { OpP o = put(actor, OP_DUMP, path, slot, sess); o->a = p.dump_flags; return o; }
    OpP openw(int actor, int path, int slot, int sess = 0) { OpP o = put(actor, OP_OPEN_W, path, slot, sess); o->cfg = (int)g.below((u32)p.cfgs.size()); return o; }
    void reader_session(int actor, int path, int slot, int sess) {   // deletions and norms through a reader
        openr(actor, path, slot, sess);
        for (int i = 0, n = g.range(1, 5); i < n; i++) {
            double r = (double)g.below(1000) / 1000; OpP o;
            if (r < .8 - p_norm) { o = put(actor, OP_RDEL, path, slot, sess); o->a = (int)g.below(50); }
            else if (r < .8) { o = put(actor, OP_RNORM, path, slot, sess); o->a = (int)g.below(50); o->s = normfield(); o->b = 1 + (int)g.below(250); }
            else o = put(actor, OP_RCOMMIT, path, slot, sess);
        }
        if (g.chance(.3)) dump(actor, path, slot, sess);
        if (g.chance(.3)) { put(actor, OP_RCOMMIT, path, slot, sess); if (g.chance(.5)) dump(actor, path, slot, sess); }
        OpP o = put(actor, OP_CLOSE_R, path, slot, sess); o->cleanup = true;
    }
    void writer_session(int actor, int path, int slot, int sess, const WMix &m) {
        OpP o = put(actor, OP_CLEAR_LOCKS, path, slot, sess); o->ac = true;
        openw(actor, path, slot, sess); writer_ops(actor, path, slot, sess, m, g.range(m.n_lo, m.n_hi));
        if (g.chance(.85)) { o = put(actor, OP_CLOSE_W, path, slot, sess); o->cleanup = true; } else { o = put(actor, OP_EXIT, path, slot, sess); o->cleanup = true; }
    }
};
typedef void (*gen_ft)(Gen &);

static void gen_crash(Gen &G, bool recover) {
    Rng &g = G.g; Plan &p = G.p; G.base(1, 3); p.dump_flags = 15;
    if (g.chance(.3)) { G.keyspace = g.range(2, 8); G.oddkeys = g.chance(.3); }
    Gen::WMix m; m.n_lo = 3; m.n_hi = g.pick(std::vector<int>{8, 20, 40}); if (g.chance(.3)) { m.del = 5; } if (g.chance(.2)) m.opt = 2;
    int ns = recover ? g.range(3, 7) : g.range(1, 4);
    if (g.chance(.03)) G.warm(0, 0, 0, 0);
    for (int s = 0; s < ns; s++) { if (s && g.chance(.3)) { OpP o = G.put(0, OP_CLEAR_LOCKS, 0, 0, s); o->ac = true; G.reader_session(0, 0, 1, s); } else G.writer_session(0, 0, 0, s, m); }
    p.k.p_fault[F_CRASH] = recover ? g.pick(std::vector<double>{.004, .01, .03}) : g.pick(std::vector<double>{0, .002, .01}); p.k.crash_budget = recover ? 6 : 3;
    p.k.p_fault[F_PROBE] = recover ? .03 : g.pick(std::vector<double>{.06, .15, .4});
    if (recover) p.flags |= PF_RECOVER | PF_FINAL_CONT;
}
static void gen_c01(Gen &G) { gen_crash(G, false); }
static void gen_c02(Gen &G) { gen_crash(G, true); }

// storage errors: a session meets a few failing system calls, ends, and a new process goes on
static void error_faults(Plan &p, Rng &g, double scale) {
    KConfig &k = p.k; k.max_faults = g.pick(std::vector<int>{1, 1, 1, 2, 3, 6});
    std::vector<int> kinds = {F_EIO, F_ENOSPC, F_SHORT, F_EMFILE, F_CLOSE_EIO}; bool any = false;
    if (g.chance(.35)) k.p_sticky = g.pick(std::vector<double>{.3, 1.0});
    while (!any) for (int f : kinds) if (g.chance(.5)) { k.p_fault[f] = scale * g.pick(std::vector<double>{.001, .004, .015}); any = true; }
}
static void gen_c03(Gen &G) {
    Rng &g = G.g; Plan &p = G.p; G.base(1, 3); p.dump_flags = 15; p.flags |= PF_FAULTY | PF_FINAL_CONT;
    Gen::WMix m; m.n_lo = 3; m.n_hi = g.pick(std::vector<int>{6, 15, 30}); if (g.chance(.3)) m.del = 5; if (g.chance(.3)) m.opt = 2;
    int ns = g.range(1, 4);
    for (int s = 0; s < ns; s++) {
        OpP o = G.put(0, OP_CLEAR_LOCKS, 0, 0, s); o->ac = true;
        if (s && g.chance(.4)) G.reader_session(0, 0, 1, s);
        else { G.openw(0, 0, 0, s); G.writer_ops(0, 0, 0, s, m, g.range(m.n_lo, m.n_hi)); o = G.put(0, OP_CLOSE_W, 0, 0, s); o->cleanup = true; }
        if (g.chance(.7)) { o = G.put(0, OP_CLOSE_ALL, 0, 0, s); o->cleanup = true; }
        o = G.put(0, OP_EXIT, 0, 0, s); o->cleanup = true;
    }
    if (g.chance(.2)) p.capacity = (u64)g.range(2000, 60000);
    if (p.capacity == ~0ull || g.chance(.3)) error_faults(p, g, 1.0);
}

// a writer process (and sometimes a thread reading beside it) against reader processes
static void gen_readers(Gen &G, bool hold) {
    Rng &g = G.g; Plan &p = G.p; G.base(1, 3); p.dump_flags = g.chance(.3) ? 15 : g.pick(std::vector<int>{1, 5, 7});
    if (g.chance(.3)) { G.keyspace = g.range(2, 8); G.oddkeys = g.chance(.3); }
    p.k.p_switch = g.pick(std::vector<double>{.02, .1, .3, .5}); if (g.chance(.4)) { p.k.p_fault[F_STALL] = g.pick(std::vector<double>{.002, .02}); p.k.stall_us = g.pick(std::vector<int>{2000, 60000, 300000}); }
    p.actors.push_back(Actor{0, {}});
    int nr = g.range(1, 3); for (int i = 0; i < nr; i++) p.actors.push_back(Actor{g.chance(.25) ? 0 : i + 1, {}});
    { std::map<int, int> m; int k = 0; for (auto &a : p.actors) { if (!m.count(a.proc)) m[a.proc] = k++; a.proc = m[a.proc]; } }
    Gen::WMix m; m.n_lo = 4; m.n_hi = g.pick(std::vector<int>{10, 25, 40}); m.commit = g.pick(std::vector<double>{1, 4}); if (g.chance(.4)) m.del = 5; if (g.chance(.4)) m.opt = 2;
    bool normy = hold && g.chance(.35); G.p_norm = normy ? .8 : .3; if (g.chance(.06)) G.warm(0, 0, 0, 0);
    for (int s = 0, ns = normy ? g.range(4, 8) : g.range(1, 4); s < ns; s++) {
        if (hold && s && g.chance(.12)) { OpP o = G.put(0, OP_CREATE, 0, 0, s); o->schema = 0; }
        if (s && g.chance(normy ? .85 : .35)) G.reader_session(0, 0, 11, s);
        else { G.openw(0, 0, 0, s); G.writer_ops(0, 0, 0, s, m, g.range(m.n_lo, m.n_hi)); G.put(0, OP_CLOSE_W, 0, 0, s); }
        if (g.chance(.3)) { OpP o = G.put(0, OP_SLEEP, 0, 0, s); o->a = g.range(1, 200) * 1000; }
    }
    for (int r = 1; r <= nr; r++) {
        int base = (r - 1) * 3; bool open[3] = {false, false, false};
        for (int i = 0, n = g.range(3, hold ? 14 : 9); i < n; i++) {
            int k = g.range(0, hold ? 2 : 0), slot = base + k; u32 x = g.below(10);
            if (!open[k]) { OpP o = G.openr(r, 0, slot); if (hold && g.chance(.4)) o->a = g.pick(std::vector<int>{0, 0, 1, 3}); open[k] = true; }
            else if (hold ? x < 6 : x < 2) G.dump(r, 0, slot);
            else if (x < 7) { OpP o = G.put(r, OP_SLEEP, 0, slot); o->a = g.range(1, 100) * 500; }
            else { G.put(r, OP_CLOSE_R, 0, slot); open[k] = false; if (!hold) { G.openr(r, 0, slot); open[k] = true; } }
            if (!hold && open[k] && g.chance(.6)) { G.put(r, OP_CLOSE_R, 0, slot); open[k] = false; }
        }
        for (int k = 0; k < 3; k++) if (open[k]) { if (hold) { OpP o = G.dump(r, 0, base + k); if (g.chance(.5)) o->a = 15; } G.put(r, OP_CLOSE_R, 0, base + k); }
    }
}
static void gen_c04(Gen &G) { gen_readers(G, true); }
static void gen_c05(Gen &G) { gen_readers(G, false); }

// ---------------------------------------------------------------- C06, C07: processes and threads compete for the write lock
static void gen_locks(Gen &G, bool faulty, bool goon) {
    Rng &g = G.g; Plan &p = G.p; G.base(g.chance(.15) ? 2 : 1, 3); p.dump_flags = g.pick(std::vector<int>{1, 1, 7}); G.big = false; G.maxwords = 4; int np = (int)p.paths.size();
    p.k.p_switch = g.pick(std::vector<double>{.02, .1, .3, .5}); if (g.chance(.5)) { p.k.p_fault[F_STALL] = g.pick(std::vector<double>{.002, .02}); p.k.stall_us = g.pick(std::vector<int>{2000, 60000, 900000}); }
    int na = g.range(2, 4); std::vector<int> cnt(na, 0); p.actors.clear();
    for (int i = 0; i < na; i++) p.actors.push_back(Actor{i && g.chance(.35) ? p.actors[g.below((u32)i)].proc : i, {}});
    { std::map<int, int> m; int k = 0; for (auto &a : p.actors) { if (!m.count(a.proc)) m[a.proc] = k++; a.proc = m[a.proc]; cnt[a.proc]++; } }
    Gen::WMix m; m.commit = 3; m.del = 3; m.opt = .4; bool lockobj = g.chance(.4);
    for (int a = 0; a < na; a++) {
        int S = 0;
        for (int i = 0, n = g.range(2, 7); i < n; i++) {
            int path = g.chance(.8) ? 0 : g.below((u32)np), x = g.below(100); if (!goon) S = i;
            if (x < 40) {
                G.openw(a, path, a, S); int k = g.range(0, 5);
                for (int z = 0; z < k; z++) { G.writer_ops(a, path, a, S, m, 1); if (g.chance(.15)) G.openw(a, path, a + 4, S); if (g.chance(.15)) G.put(a, OP_IS_LOCKED, path, 0, S); if (g.chance(.1)) G.put(a, OP_CLOSE_W, path, a + 4, S); if (g.chance(.15)) { OpP o = G.put(a, OP_SLEEP, path, 0, S); o->a = g.range(1, 2000) * 1000; } }
                OpP o = G.put(a, OP_CLOSE_W, path, a, S); o->cleanup = true; o = G.put(a, OP_CLOSE_W, path, a + 4, S); o->cleanup = true;
            }
            else if (x < 62) { G.p_norm = .3; G.reader_session(a, path, a, S); }
            else if (x < 70) { OpP o = G.openr(a, path, a + 4, S); o->a = 1; if (g.chance(.5)) G.dump(a, path, a + 4, S); o = G.put(a, OP_CLOSE_R, path, a + 4, S); o->cleanup = true; }
            else if (x < 78 && lockobj) { G.put(a, OP_LOCKOBJ, path, a, S); OpP o = G.put(a, OP_SLEEP, path, 0, S); o->a = g.range(1, 1500) * 1000; o = G.put(a, OP_UNLOCKOBJ, path, a, S); o->cleanup = true; }
            else if (x < 86) G.put(a, OP_IS_LOCKED, path, 0, S);
            else if (x < 92) { OpP o = G.put(a, OP_SLEEP, path, 0, S); o->a = g.range(1, 3000) * 1000; }
            else if (cnt[p.actors[a].proc] == 1) { OpP o = G.put(a, g.chance(.7) ? OP_CLOSE_ALL : OP_EXIT, path, 0, S); if (o->code == OP_EXIT && goon) o->code = OP_CLOSE_ALL; o->cleanup = true; }
        }
        if (goon || g.chance(.5)) { OpP o = G.put(a, OP_CLOSE_W, 0, a, S); o->cleanup = true; o = G.put(a, OP_CLOSE_W, 0, a + 4, S); o->cleanup = true; o = G.put(a, OP_CLOSE_R, 0, a, S); o->cleanup = true; o = G.put(a, OP_CLOSE_R, 0, a + 4, S); o->cleanup = true; }
    }
    if (!goon && g.chance(.15)) { p.k.p_fault[F_CRASH] = .002; p.k.crash_budget = 1; }
    if (faulty) { p.flags |= PF_FAULTY; error_faults(p, g, goon ? 2.0 : .5); }
    if (goon) { p.knob["goon"] = 1; p.knob["blind"] = 1; }
}
static void gen_c06(Gen &G) { gen_locks(G, G.g.chance(.3), false); }
// ---------------------------------------------------------------- C08: readers that are, or are not, the latest
static void gen_c08(Gen &G) {
    Rng &g = G.g; Plan &p = G.p; G.base(1, 3); p.dump_flags = g.pick(std::vector<int>{1, 5, 15}); G.big = false; bool multi = g.chance(.6); G.p_norm = .4;
    p.k.p_fault[F_CLOCK] = g.pick(std::vector<double>{0, .002, .02}); Gen::WMix m; m.n_lo = 1; m.n_hi = g.pick(std::vector<int>{4, 12}); m.commit = 3; m.del = 3;
    auto change = [&](int a, int slot, int S) { OpP o = G.put(a, g.chance(.6) ? OP_RDEL : OP_RNORM, 0, slot, S); o->a = (int)g.below(50); o->s = G.normfield(); o->b = 1 + (int)g.below(250); };
    auto look = [&](int a, int slot, int S) { u32 x = g.below(10); if (x < 5) G.put(a, OP_IS_LATEST, 0, slot, S); else if (x < 8) change(a, slot, S); else if (x < 9) G.put(a, OP_RCOMMIT, 0, slot, S); else G.dump(a, 0, slot, S); };
    if (!multi) {   // one process: every order of opening, committing, re-creating
        for (int i = 0, n = g.range(6, 25); i < n; i++) {
            u32 x = g.below(100); int k = g.range(0, 3);
            if (x < 25) { G.openw(0, 0, 0); G.writer_ops(0, 0, 0, 0, m, g.range(0, m.n_hi)); if (g.chance(.5)) look(0, k, 0); G.put(0, OP_CLOSE_W, 0, 0); }
            else if (x < 45) { G.put(0, OP_CLOSE_R, 0, k); G.openr(0, 0, k); }
            else if (x < 50) G.reader_session(0, 0, 8, 0);
            else if (x < 56) { for (int z = 0; z < 4; z++) G.put(0, OP_RCOMMIT, 0, z); OpP o = G.put(0, OP_CREATE, 0, 0); o->schema = 0; if (g.chance(.5)) { OpP o = G.put(0, OP_SLEEP, 0, 0); o->a = g.range(1, 2000) * 1000; } }
            else look(0, k, 0);
        }
        for (int k = 0; k < 4; k++) { G.put(0, OP_IS_LATEST, 0, k); G.put(0, OP_CLOSE_R, 0, k); }
        return;
    }
    p.k.p_switch = g.pick(std::vector<double>{.02, .1, .3, .5}); if (g.chance(.4)) { p.k.p_fault[F_STALL] = g.pick(std::vector<double>{.002, .02}); p.k.stall_us = g.pick(std::vector<int>{2000, 60000, 300000}); }
    int na = g.range(2, 4); p.actors.clear(); for (int i = 0; i < na; i++) p.actors.push_back(Actor{i && g.chance(.3) ? p.actors[g.below((u32)i)].proc : i, {}});
    { std::map<int, int> mm; int k = 0; for (auto &a : p.actors) { if (!mm.count(a.proc)) mm[a.proc] = k++; a.proc = mm[a.proc]; } }
    for (int a = 0; a < na; a++) for (int i = 0, n = g.range(3, 12); i < n; i++) {
        u32 x = g.below(100); int k = a * 3 + g.range(0, 2);
        if (x < (a ? 15u : 35u)) { G.openw(a, 0, a); G.writer_ops(a, 0, a, 0, m, g.range(0, m.n_hi)); if (g.chance(.3)) look(a, k, 0); G.put(a, OP_CLOSE_W, 0, a); }
        else if (x < 55) { G.put(a, OP_CLOSE_R, 0, k); G.openr(a, 0, k); }
        else if (x < 62) { OpP o = G.put(a, OP_SLEEP, 0, 0); o->a = g.range(1, 300) * 1000; }
        else look(a, k, 0);
    }
}
// ---------------------------------------------------------------- C11: long histories, every configuration
static void gen_c11(Gen &G) {
    Rng &g = G.g; Plan &p = G.p; G.base(1, 4); p.dump_flags = 15; G.p_bigdoc = .1; G.p_dyn = .25;
    for (auto &c : p.cfgs) { if (g.chance(.4)) c.max_buffered_docs = g.pick(std::vector<int>{2, 5, 13, 40, 100}); if (g.chance(.3)) c.skip_interval = 2; if (g.chance(.3)) c.chunk_size = 1 << 13; if (g.chance(.2)) c.max_buffer_memory = 1 << 14; }
    if (g.chance(.3)) { G.keyspace = g.range(2, 8); G.oddkeys = g.chance(.3); } if (g.chance(.3)) { G.words.resize(g.range(1, 4)); } if (g.chance(.15)) G.maxwords = 200;
    Gen::WMix m; m.n_lo = 5; m.n_hi = g.pick(std::vector<int>{15, 40, 90, 150}); if (G.maxwords > 100) m.n_hi = 15; m.del = g.pick(std::vector<double>{.5, 1.5, 4}); m.commit = g.pick(std::vector<double>{.2, 1.2, 4}); m.opt = g.pick(std::vector<double>{0, .3, 1.5}); m.count = .1;
    G.p_norm = g.pick(std::vector<double>{.1, .3, .6});
    int ns = g.range(2, 6); bool ram = g.chance(.15), warm = false;
    switch (g.below(14)) {   // sizes that cross the limits of small numbers, bit vectors and buffers
    case 0: G.big = false; G.p_dyn = .02; G.maxwords = 3; G.ndyn = 6; m.n_lo = 200; m.n_hi = 700; m.add = 100; ns = g.range(1, 3); for (auto &c : p.cfgs) { c.max_buffered_docs = g.pick(std::vector<int>{20, 60, 150, 1000}); c.merge_factor = g.pick(std::vector<int>{2, 5, 10}); } p.schemas[0].f[1].tv = g.chance(.5) ? 0 : p.schemas[0].f[1].tv; break;
    case 1: for (auto &c : p.cfgs) c.max_field_length = 1000000; G.maxwords = g.pick(std::vector<int>{600, 3000, 9000}); G.big = false; m.n_lo = 2; m.n_hi = 6; m.add = 4; ns = g.range(1, 3); break;
    case 2: warm = true; ns = g.range(1, 3); m.n_hi = 15; G.maxwords = 5; break;
    case 3: for (int i = 0; i < 300; i++) G.words.push_back("v" + std::to_string(i * 37)); m.n_hi = 40; G.maxwords = 60; break;
    }
    if (ram) { p.paths[0] = "ram0"; OpP o = G.put(0, OP_CREATE, 0, 0, 0); o->schema = 0; }
    for (int s = 0; s < ns; s++) {
        if (!s && warm) G.warm(0, 0, 0, s);
        if (s && g.chance(.4)) G.reader_session(0, 0, 1, s);
        else { G.openw(0, 0, 0, s); G.writer_ops(0, 0, 0, s, m, g.range(m.n_lo, m.n_hi)); G.put(0, OP_CLOSE_W, 0, 0, s); }
        if (ram || g.chance(.5)) { G.openr(0, 0, 2, s); G.put(0, OP_CLOSE_R, 0, 2, s); }
        if (!ram && g.chance(.3)) { G.put(0, OP_EXIT, 0, 0, s); OpP o = G.put(0, OP_CLEAR_LOCKS, 0, 0, s + 1); o->ac = true; }
    }
    // another process looks at the index meanwhile
    if (!ram && G.maxwords < 500 && m.n_hi < 500 && g.chance(.6)) {
        p.actors.push_back(Actor{1, {}}); p.k.p_switch = g.pick(std::vector<double>{.02, .1, .3});
        for (int i = 0, n = g.range(1, 4); i < n; i++) { G.openr(1, 0, 0); if (g.chance(.5)) { OpP o = G.put(1, OP_SLEEP, 0, 0); o->a = g.range(1, 100) * 300; G.dump(1, 0, 0); } G.put(1, OP_CLOSE_R, 0, 0); }
    }
}
// ---------------------------------------------------------------- C13: what is left in the directory
static void gen_c13(Gen &G) {
    Rng &g = G.g; Plan &p = G.p; G.base(1, 3); p.dump_flags = 15; p.flags |= PF_ORPHANS; G.p_bigdoc = .02; G.maxwords = 5;
    Gen::WMix m; m.n_lo = 2; m.n_hi = g.pick(std::vector<int>{8, 20, 40}); m.del = g.pick(std::vector<double>{.5, 3}); m.opt = g.pick(std::vector<double>{.3, 2}); m.commit = g.pick(std::vector<double>{1.2, 4}); G.p_norm = g.pick(std::vector<double>{.2, .5});
    static const char *names[] = {"README", "notes.txt", ".hidden", "_0.txt", "_0", "_0_1", "seg", "segment_1", "my_segments_3", "x.cfsx", "a.frq.bak", "_0.frq~", "index.html", "ferret.conf", "x.lck2", "frq", "cfs", "f0", "_1.fdtx", "x.fnm", "x.sql", "x.fdx2", "a.delx", "notes.segments_1"};
    int mode = (int)g.below(3), ns = g.range(2, 6); // 0 undisturbed, 1 crashes, 2 storage errors
    if (mode == 0 && g.chance(.1)) G.warm(0, 0, 0, 0);
    for (int s = 0; s < ns; s++) {
        if (g.chance(s ? .2 : .6)) for (int i = 0, n = g.range(1, 4); i < n; i++) { OpP o = G.put(0, OP_FOREIGN, 0, 0, s); o->s = names[g.below(sizeof names / sizeof *names)]; o->s2 = g.chance(.1) ? "" : G.text(g.range(1, 5)); }
        OpP o = G.put(0, OP_CLEAR_LOCKS, 0, 0, s); o->ac = true;
        if (s && mode == 0 && g.chance(.1)) { o = G.put(0, OP_CREATE, 0, 0, s); o->schema = 0; }
        if (s && g.chance(.35)) G.reader_session(0, 0, 1, s);
        else { G.openw(0, 0, 0, s); G.writer_ops(0, 0, 0, s, m, g.range(m.n_lo, m.n_hi)); o = G.put(0, OP_CLOSE_W, 0, 0, s); o->cleanup = true; }
        if (mode == 2 || g.chance(.3)) { o = G.put(0, OP_EXIT, 0, 0, s); o->cleanup = true; }
    }
    if (mode == 1) { p.k.p_fault[F_CRASH] = g.pick(std::vector<double>{.004, .01, .03}); p.k.crash_budget = 6; }
    if (mode == 2) { p.flags |= PF_FAULTY; error_faults(p, g, 1.0); }
    OpP o = G.put(0, OP_CLEAR_LOCKS, 0, 0, ns); o->ac = true; G.openw(0, 0, 0, ns); if (g.chance(.5)) G.writer_ops(0, 0, 0, ns, m, g.range(0, 8)); o = G.put(0, OP_CLOSE_W, 0, 0, ns); o->cleanup = true;
    if (mode == 0 && g.chance(.5)) { p.actors.push_back(Actor{1, {}}); p.k.p_switch = g.pick(std::vector<double>{.02, .1, .3}); for (int i = 0, n = g.range(1, 4); i < n; i++) { o = G.openr(1, 0, 0); o->a = 1; if (g.chance(.5)) { o = G.put(1, OP_SLEEP, 0, 0); o->a = g.range(1, 100) * 300; G.dump(1, 0, 0); } G.put(1, OP_CLOSE_R, 0, 0); } }
}
// ---------------------------------------------------------------- C15: the same history on disk and in memory
static void gen_c15(Gen &G) {
    Rng &g = G.g; Plan &p = G.p; G.base(1, 3); p.dump_flags = g.pick(std::vector<int>{15, 15, 7}); G.add_path("ram1", 0); G.add_path("ram2", 0); G.add_path("/d3", 0); p.knob["nocreate3"] = 1;
    if (g.chance(.3)) { G.keyspace = g.range(2, 8); G.oddkeys = g.chance(.3); }
    Gen::WMix m; m.n_lo = 3; m.n_hi = g.pick(std::vector<int>{8, 20, 40}); if (g.chance(.3)) m.del = 5; if (g.chance(.3)) m.opt = 2; if (g.chance(.3)) m.commit = 4;
    // the history, on path 0
    { OpP o = G.put(0, OP_CREATE, 0, 0); o->schema = 0; }
    bool held[3] = {false, false, false}; int ns = g.range(2, 6);
    auto readers = [&]() { for (int k = 0; k < 3; k++) if (g.chance(.35)) { if (!held[k]) { OpP o = G.openr(0, 0, k + 2); if (g.chance(.4)) o->a = 0; held[k] = true; } else if (g.chance(.6)) G.dump(0, 0, k + 2); else { G.put(0, OP_CLOSE_R, 0, k + 2); held[k] = false; } }
        if (g.chance(.3)) { int k = g.range(0, 2); if (held[k]) G.put(0, OP_IS_LATEST, 0, k + 2); } if (g.chance(.2)) G.put(0, OP_IS_LOCKED, 0, 0); if (g.chance(.1)) G.put(0, OP_EXISTS, 0, 0); };
    for (int s = 0; s < ns; s++) {
        if (s && g.chance(.4)) G.reader_session(0, 0, 1, 0);
        else {
            G.openw(0, 0, 0);
            for (int i = 0, n = g.range(1, 4); i < n; i++) { G.writer_ops(0, 0, 0, 0, m, g.range(1, m.n_hi / 2)); readers(); if (g.chance(.15)) G.openw(0, 0, 2); if (g.chance(.15) && held[0]) { OpP o = G.put(0, OP_RDEL, 0, 2); o->a = (int)g.below(50); } }
            G.put(0, OP_CLOSE_W, 0, 0);
        }
        readers();
        if (s && g.chance(.08)) { OpP o = G.put(0, OP_CREATE, 0, 0); o->schema = 0; }
    }
    for (int k = 0; k < 3; k++) if (held[k]) G.dump(0, 0, k + 2);
    // its twin, on path 1
    auto ops = p.actors[0].ops; p.actors[0].ops.clear();
    for (auto &o : ops) { p.actors[0].ops.push_back(o); OpP t = std::make_shared<Op>(*o); t->id = p.next_id++; t->path = 1; t->slot = o->code == OP_OPEN_W || (o->code >= OP_CLOSE_W && o->code <= OP_ADD_READERS) ? o->slot + 1 : o->slot + 6; t->mirror = o->id; p.actors[0].ops.push_back(t); }
    // copies
    if (g.chance(.6)) {
        int src = g.range(0, 1); bool busy = g.chance(.4); if (busy) { G.openw(0, src, 0); G.writer_ops(0, src, 0, 0, m, g.range(1, 8)); G.put(0, OP_COMMIT, src, 0); }   // with the writer still open
        OpP o = G.put(0, OP_COPY_TO_RAM, src, 2); (void)o; G.openr(0, 2, 5); if (g.chance(.5)) G.put(0, OP_IS_LOCKED, 2, 0); if (busy && g.chance(.5)) { G.openw(0, 2, 2); G.put(0, OP_CLOSE_W, 2, 2); } if (busy) G.put(0, OP_CLOSE_W, src, 0);
        if (g.chance(.6)) { G.openw(0, src, 0); G.writer_ops(0, src, 0, 0, m, g.range(1, 8)); G.put(0, OP_CLOSE_W, src, 0); G.dump(0, 2, 5); G.put(0, OP_CLOSE_R, 2, 5); G.openr(0, 2, 5); }
        if (g.chance(.6)) { G.openw(0, 2, 0); G.writer_ops(0, 2, 0, 0, m, g.range(1, 8)); G.put(0, OP_CLOSE_W, 2, 0); G.openr(0, src, 11); G.put(0, OP_CLOSE_R, src, 11); }
        G.put(0, OP_CLOSE_R, 2, 5); G.openr(0, 2, 5);
    }
    if (g.chance(.4)) { G.put(0, OP_COPY_TO_FS, 1, 3); G.openr(0, 3, 5); G.put(0, OP_CLOSE_R, 3, 5); if (g.chance(.6)) { G.openw(0, 3, 0); G.writer_ops(0, 3, 0, 0, m, g.range(1, 8)); G.put(0, OP_CLOSE_W, 3, 0); } }
    p.k.p_fault[F_STALL] = .01; p.k.stall_us = 1000;
}
// ---------------------------------------------------------------- C17: adding indexes
static void gen_c17(Gen &G) {
    Rng &g = G.g; Plan &p = G.p; G.base(1, 3); p.dump_flags = 15; G.p_dyn = .4; int nsrc = g.range(1, 3);
    for (int i = 0; i < nsrc; i++) {   // the same fields, numbered differently, and some of its own
        SchemaSpec s = p.schemas[0]; if (g.chance(.6)) for (int k = 0; k < 5; k++) std::swap(s.f[k], s.f[g.below(5)]); if (g.chance(.4)) s.f.push_back({"own" + std::to_string(i), 1, g.pick(std::vector<int>{0, 1, 3}), g.pick(std::vector<int>{0, 0, 1, 7}), 1.0f});
        if (s.f.back().name[0] == 'o' && !(s.f.back().index & 1)) s.f.back().tv = 0;
        p.schemas.push_back(s); G.add_path(g.chance(.2) ? "ram" + std::to_string(i) : "/s" + std::to_string(i), i + 1);
    }
    Gen::WMix m; m.n_lo = 2; m.n_hi = g.pick(std::vector<int>{6, 15, 30}); m.del = g.pick(std::vector<double>{.5, 3}); m.opt = g.pick(std::vector<double>{0, .5});
    int S = 0; auto fill = [&](int path, int slot) { G.openw(0, path, slot, S); size_t k = p.actors[0].ops.size(); G.writer_ops(0, path, slot, S, m, g.range(m.n_lo, m.n_hi));
        if (path) for (; k < p.actors[0].ops.size(); k++) { auto &o = p.actors[0].ops[k]; if (o->doc && p.schemas[path].f.back().name[0] == 'o' && g.chance(.5)) { FieldSpec f; f.name = p.schemas[path].f.back().name; f.vals = {G.text(g.range(1, 4))}; o->doc->f.push_back(f); } }
        G.put(0, OP_CLOSE_W, path, slot, S); };
    for (int i = 1; i <= nsrc; i++) { if (p.paths[i][0] != '/') { OpP o = G.put(0, OP_CREATE, i, 0, S); o->schema = i; } if (g.chance(.92)) for (int k = 0, n = g.range(1, 2); k < n; k++) fill(i, 1); if (g.chance(.5)) { G.reader_session(0, i, 11, S); } }
    if (g.chance(.8)) fill(0, 0);
    for (int round = 0, nr = g.range(1, 3); round < nr; round++) {
        int mask = 0;
        for (int i = 1; i <= nsrc; i++) if (g.chance(.7)) { G.openr(0, i, i, S); mask |= 1 << i; if (g.chance(.3)) for (int k = 0, n = g.range(1, 3); k < n; k++) { OpP o = G.put(0, g.chance(.6) ? OP_RDEL : OP_RNORM, i, i, S); o->a = (int)g.below(50); o->s = "body"; o->b = 1 + (int)g.below(250); if (g.chance(.3)) G.put(0, OP_RCOMMIT, i, i, S); } if (g.chance(.3)) { OpP o = G.put(0, OP_RCOMMIT, i, i, S); (void)o; } }
        if (!mask) { G.openr(0, 1, 1, S); mask = 2; }
        G.openw(0, 0, 0, S); if (g.chance(.5)) G.writer_ops(0, 0, 0, S, m, g.range(1, 6));
        OpP o = G.put(0, OP_ADD_READERS, 0, 0, S); o->a = mask;
        G.writer_ops(0, 0, 0, S, m, g.range(0, 10)); if (g.chance(.3)) { o = G.put(0, OP_ADD_READERS, 0, 0, S); o->a = mask; }
        G.put(0, OP_CLOSE_W, 0, 0, S);
        for (int i = 1; i <= nsrc; i++) if ((mask >> i) & 1) { G.dump(0, i, i, S); G.put(0, OP_CLOSE_R, i, i, S); } if ((mask >> 5) & 1) { G.dump(0, 0, 5, S); G.put(0, OP_CLOSE_R, 0, 5, S); }
        G.openr(0, 0, 6, S); G.put(0, OP_CLOSE_R, 0, 6, S);
    }
    if (g.chance(.4)) { G.openw(0, 0, 0, S); G.writer_ops(0, 0, 0, S, m, 5); G.put(0, OP_CLOSE_W, 0, 0, S); }
    p.k.p_fault[F_PROBE] = g.pick(std::vector<double>{0, 0, 0, .001, .004}); p.only_path = 0;
}
// ---------------------------------------------------------------- C18: streams
struct StreamGen {
    Gen &G; Rng &g; Plan &p; int actor, path, sess = 0; struct T { int type; size_t pos, len; i64 n; std::string s; }; struct F { std::string name, data; std::vector<T> toks; }; std::vector<F> files; OpP cur; int nfile = 0;
    StreamGen(Gen &G, int a, int path) : G(G), g(G.g), p(G.p), actor(a), path(path) {}
    int oh(int i) { return actor * 2 + i; } int ih(int i) { return actor * 4 + i; }
    void begin(bool cleanup = false) { cur = p.op(actor, OP_STREAM, path, 0); cur->sess = sess; cur->cleanup = cleanup; }
    void st(int code, int a, i64 n = 0, const std::string &s = "", int len = 0) { StreamSpec x; x.code = code; x.a = a; x.n = n; x.s = s; x.len = len; cur->st.push_back(x); }
    void tag(const std::string &t) { for (auto &x : cur->strs) if (x == t) return; cur->strs.push_back(t); }
    static std::string vint(u64 v) { std::string r; while (v > 127) { r += (char)((v & 127) | 128); v >>= 7; } r += (char)v; return r; }
    static std::string be(u64 v, int n) { std::string r; for (int i = n - 1; i >= 0; i--) r += (char)((v >> (8 * i)) & 255); return r; }
    static std::string enc(int type, i64 n, const std::string &s) { switch (type) { case 2: return std::string(1, (char)n); case 3: return s; case 4: return vint((u32)n); case 5: case 11: return vint((u64)n); case 6: case 8: return be((u32)n, 4); case 7: case 9: return be((u64)n, 8); case 10: return vint(s.size()) + s; } return ""; }
    static std::string show(int type, i64 n, const std::string &s) { switch (type) { case 2: return std::to_string((int)(unsigned char)n) + ";"; case 4: case 8: return std::to_string((u32)n) + ";"; case 5: case 7: return std::to_string((long long)n) + ";"; case 9: case 11: return std::to_string((unsigned long long)n) + ";"; case 6: return std::to_string((int)n) + ";"; case 10: return "s" + std::to_string(s.size()) + ":" + s + ";"; case 3: return hash(s); } return ""; }
    static std::string hash(const std::string &s) { unsigned h = 5381; for (unsigned char c : s) h = h * 33 + c; return "h" + std::to_string(h) + ";"; }
    i64 num() { int b = g.range(0, 63); u64 v = g.next() >> (63 - b); if (g.chance(.3)) v = (1ull << b) - (u64)g.below(2); return (i64)v; }
    void rnd(int type, i64 &n, std::string &s) {
        n = num(); s.clear();
        if (type == 2) n &= 255; else if (type == 4 || type == 8 || type == 6) { n = (i64)(u32)n; if (type == 6) n = (i64)(int)(u32)n; } else if (type == 5) n &= 0x7fffffffffffffffll; else if (type == 7 || type == 9 || type == 11) { if (g.chance(.2)) n = -n; }
        if (type == 3 || type == 10) { int len = g.chance(.75) ? g.range(0, 40) : g.pick(std::vector<int>{1000, 1022, 1023, 1024, 1025, 2046, 2047, 2048, 2049, 3000, 5000}); if (type == 3 && g.chance(.03)) len = g.range(20000, 60000); for (int i = 0; i < len; i++) s += type == 3 ? (char)g.below(256) : (char)(1 + g.below(255)); }
    }
    void write_file() {
        F f; f.name = "f" + std::to_string(actor) + "_" + std::to_string(nfile++); int h = oh(0); int n = g.pick(std::vector<int>{0, 1, 5, 30, 120});
        begin(); tag("w:" + f.name); st(1, h, 0, f.name);
        bool small = g.chance(.4);
        for (int i = 0; i < n; i++) {
            int type = g.range(2, 11); if (small && (type == 3 || type == 10) && g.chance(.9)) type = 4; T t; t.type = type; rnd(type, t.n, t.s);
            if (cur->st.size() > 12 && g.chance(.3)) { begin(); tag("w:" + f.name); }
            t.pos = f.data.size(); std::string e = enc(type, t.n, t.s); t.len = e.size(); f.data += e; f.toks.push_back(t); st(type, h, t.n, t.s, (int)t.s.size());
            if (g.chance(.06)) st(13, h);
            if (g.chance(.06)) { st(15, h); cur->expect += std::to_string(f.data.size()) + ";"; }
            if (g.chance(.05)) {   // go back and correct a value of fixed size
                size_t k = g.below((u32)f.toks.size()); T &q = f.toks[k]; if (q.type == 2 || (q.type >= 6 && q.type <= 9)) { rnd(q.type, q.n, q.s); std::string e2 = enc(q.type, q.n, ""); f.data.replace(q.pos, q.len, e2); st(12, h, (i64)q.pos); st(q.type, h, q.n); if (g.chance(.5)) { st(15, h); cur->expect += std::to_string(q.pos + q.len) + ";"; } st(12, h, (i64)f.data.size()); }
            }
        }
        st(14, h); files.push_back(f);
    }
    void read_tok(const T &t, int h, bool safe) { static const int rc[] = {0, 0, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30}; int code = rc[t.type]; if (code == 29 && safe) code = 39; st(code, h, 0, "", (int)t.len); cur->expect += show(t.type, t.n, t.s); }
    // cmpd: opened through compound store c as entry
    void read_file(const F &f, int cmpd = -1) {
        std::vector<int> hs = {ih(0)}; auto fresh = [&]() { begin(); tag("r:" + f.name); };
        fresh(); if (cmpd >= 0) st(52, cmpd, hs[0], f.name); else st(20, hs[0], 0, f.name);
        if (g.chance(.5)) { st(35, hs[0]); cur->expect += std::to_string(f.data.size()) + ";"; }
        if (g.chance(.7)) for (auto &t : f.toks) { if (g.chance(.03)) { st(34, hs[0]); cur->expect += std::to_string(t.pos) + ";"; } if (t.type == 4 && g.chance(.2)) { st(36, hs[0], 1); continue; } read_tok(t, hs[0], g.chance(.3)); if (cur->st.size() > 20 && g.chance(.2)) fresh(); }
        for (int i = 0, n = g.range(0, 25); i < n; i++) {
            int h = g.pick(hs); u32 x = g.below(10); if (g.chance(.2)) fresh();
            if (x < 4 && !f.toks.empty()) { size_t k = g.below((u32)f.toks.size()); st(31, h, (i64)f.toks[k].pos); for (size_t z = k; z < f.toks.size() && z < k + (size_t)g.range(1, 4); z++) read_tok(f.toks[z], h, false); }
            else if (x < 7) { size_t a = g.below((u32)f.data.size() + 1), l = g.chance(.5) ? g.below(60) : g.below(4000); l = std::min(l, f.data.size() - a); st(31, h, (i64)a); st(22, h, 0, "", (int)l); cur->expect += hash(f.data.substr(a, l)); if (g.chance(.5)) { st(34, h); cur->expect += std::to_string(a + l) + ";"; } if (a + l < f.data.size() && g.chance(.5)) { st(21, h); cur->expect += std::to_string((int)(unsigned char)f.data[a + l]) + ";"; } }
            else if (x < 8 && hs.size() < 4) { fresh(); size_t a = g.below((u32)f.data.size() + 1); st(31, h, (i64)a); if (a < f.data.size() && g.chance(.6)) { st(21, h); cur->expect += std::to_string((int)(unsigned char)f.data[a]) + ";"; a++; } int nh = ih((int)hs.size()); st(32, h, nh); hs.push_back(nh); st(34, nh); cur->expect += std::to_string(a) + ";"; if (a < f.data.size()) { st(21, nh); cur->expect += std::to_string((int)(unsigned char)f.data[a]) + ";"; } }
            else if (x < 9) {   // past the end
                fresh(); size_t k = g.below((u32)std::min<size_t>(f.data.size(), 30) + 1), a = f.data.size() - k; u32 y = g.below(3); st(31, h, (i64)a);
                if (y == 0) { st(22, h, 0, "", (int)(k + 1 + (g.chance(.5) ? 0 : g.below(3000)))); } else if (y == 1) { if (k) st(22, h, 0, "", (int)k); st(21, h); } else { if (k) st(22, h, 0, "", (int)k); st(g.range(23, 30), h); }
                cur->expect = "ERR"; fresh();
            }
        }
        fresh(); for (int h : hs) st(33, h);
    }
    void close_session(int nc) { begin(true); for (int i = 0; i < 4; i++) st(33, ih(i)); for (int i = 0; i < 2; i++) st(14, oh(i)); for (int i = 0; i < nc; i++) st(53, actor); sess++; }
    void copies() {
        if (files.empty()) return; F src = g.pick(files), dst; dst.name = "f" + std::to_string(actor) + "_" + std::to_string(nfile++); int n = g.range(1, 4);
        begin(); tag("r:" + src.name); tag("w:" + dst.name); st(20, ih(0), 0, src.name); st(1, oh(1), 0, dst.name);
        for (int i = 0; i < n; i++) { if (g.chance(.4)) { T t; t.type = 2; rnd(2, t.n, t.s); t.pos = dst.data.size(); t.len = 1; dst.data += (char)t.n; st(2, oh(1), t.n); dst.toks.push_back(t); } size_t a = g.below((u32)src.data.size() + 1), l = g.chance(.3) ? src.data.size() - a : g.below((u32)(src.data.size() - a) + 1); st(31, ih(0), (i64)a); st(37, ih(0), oh(1), "", (int)l); T t; t.type = 3; t.n = 0; t.s = src.data.substr(a, l); t.pos = dst.data.size(); t.len = l; dst.data += t.s; dst.toks.push_back(t); }
        st(33, ih(0)); st(14, oh(1)); files.push_back(dst);
    }
    void compound() {
        if (files.size() < 1) return; std::vector<F> in; for (auto &f : files) if (g.chance(.7) && in.size() < 6) in.push_back(f); if (in.empty()) in.push_back(files[0]);
        std::string cn = "c" + std::to_string(actor) + "_" + std::to_string(nfile++); std::string arg = cn + "\n"; for (auto &f : in) arg += f.name + "\n";
        begin(); for (auto &f : in) tag("r:" + f.name); tag("w:" + cn); st(50, 0, 0, arg);
        begin(); tag("r:" + cn); for (auto &f : in) tag("r:" + f.name); st(51, actor, 0, cn); st(56, actor); cur->expect += std::to_string(in.size()) + ";"; st(54, actor, 0, in[0].name); cur->expect += "1;"; st(54, actor, 0, "nosuch"); cur->expect += "0;"; for (auto &f : in) { st(55, actor, 0, f.name); cur->expect += std::to_string(f.data.size()) + ";"; }
        size_t k = p.actors[actor].ops.size(); for (int i = 0, n = g.range(1, 3); i < n; i++) read_file(g.pick(in), actor);
        for (; k < p.actors[actor].ops.size(); k++) { auto &o = p.actors[actor].ops[k]; o->strs.push_back("r:" + cn); for (auto &f : in) o->strs.push_back("r:" + f.name); }
        begin(); tag("r:" + cn); st(53, actor);
    }
    void names() {
        if (files.size() < 2) return; size_t k = g.below((u32)files.size()); F f = files[k]; std::string to = "f" + std::to_string(actor) + "_" + std::to_string(nfile++);
        if (g.chance(.6)) { begin(); tag("r:" + f.name); tag("w:" + to); st(43, 0, 0, f.name + std::string(1, '\0') + to, (int)f.name.size() + 1); st(40, 0, 0, f.name); cur->expect += "0;"; st(40, 0, 0, to); cur->expect += "1;"; st(41, 0, 0, to); cur->expect += std::to_string(f.data.size()) + ";"; files[k].name = to; }
        else { // an open stream outlives the removal of its file
            begin(); tag("r:" + f.name); tag("w:" + f.name + "!gone"); st(20, ih(0), 0, f.name); if (!f.data.empty() && g.chance(.5)) { st(21, ih(0)); cur->expect += std::to_string((int)(unsigned char)f.data[0]) + ";"; st(31, ih(0), 0); } st(42, 0, 0, f.name); st(40, 0, 0, f.name); cur->expect += "0;"; for (auto &t : f.toks) read_tok(t, ih(0), false); st(33, ih(0)); files.erase(files.begin() + (long)k); }
    }
};
static void gen_c18(Gen &G) {
    Rng &g = G.g; Plan &p = G.p; p.knob["nocreate"] = 1; p.schemas.push_back(SchemaSpec()); int na = g.range(1, 2); bool ram = g.chance(.3), faulty = !ram && g.chance(.6);
    for (int i = 0; i < na; i++) G.add_path(ram ? "ram" + std::to_string(i) : "/d0", 0); p.flags |= PF_STREAM;
    for (int a = 0; a < na; a++) {
        StreamGen S(G, a, a); p.actors.push_back(Actor{0, {}}); if ((int)p.actors.size() > na) p.actors.resize(na);
        for (int r = 0, n = g.range(1, 3); r < n; r++) {
            for (int i = 0, k = g.range(1, 3); i < k; i++) S.write_file(); S.close_session(0);
            for (int i = 0, k = g.range(1, 3); i < k; i++) S.read_file(g.pick(S.files)); S.close_session(0);
            if (g.chance(.5)) { S.copies(); S.close_session(0); } if (g.chance(.5)) { S.compound(); S.close_session(1); } if (!faulty && g.chance(.4)) { S.names(); S.close_session(0); }
        }
        for (auto &f : S.files) { if (g.chance(.5)) S.read_file(f); }
        S.close_session(0);
    }
    if (na > 1) { p.k.p_switch = g.pick(std::vector<double>{.05, .3}); if (g.chance(.5)) p.k.bb_mean = g.pick(std::vector<int>{200, 2000}); }
    if (faulty) { p.flags |= PF_FAULTY; error_faults(p, g, 3.0); }
}

// ---------------------------------------------------------------- C09, C16 (and C07): the Index object
static QP qterm(const std::string &f, const std::string &t) { auto q = std::make_shared<QSpec>(); q->type = Q_TERM; q->field = f; q->s = {t}; return q; }
struct IndexGen {
    Gen &G; Rng &g; Plan &p; int flags, adds = 0, maxadds = 1000; bool byid = false;
    IndexGen(Gen &G_, int fl) : G(G_), g(G_.g), p(G_.p), flags(fl) {}
    std::shared_ptr<DocSpec> doc() {
        auto d = G.doc(); if (!(flags & 12)) return d;
        std::vector<FieldSpec> f; for (auto &x : d->f) if (x.name != "tag" || !(flags & 8)) f.push_back(x);
        if (flags & 8) f.push_back(FieldSpec{"tag", {G.words[g.below(3)]}, 1});
        if (!(flags & 8) && g.chance(.08)) { for (size_t i = 0; i < f.size(); i++) if (f[i].name == "id") { f.erase(f.begin() + (long)i); break; } }   // a document without the key
        d->f = f; return d;
    }
    OpP op(int a, int path, int slot, int sess, bool multi) {
        u32 x = g.below(100); OpP o;
        if (x < 45 && adds < maxadds) { o = G.put(a, OP_X_ADD, path, slot, sess); o->doc = doc(); adds++; }
        else if (x < 58 || byid) { if (byid && x >= 80) o = G.put(a, OP_X_SIZE, path, slot, sess); else if (byid && x >= 70) { o = G.put(a, OP_X_GETID, path, slot, sess); std::string f; do G.term(f, o->s2); while (f != "id"); } else if (byid && x >= 66) o = G.put(a, OP_X_OPTIMIZE, path, slot, sess); else { o = G.put(a, OP_X_DELID, path, slot, sess); std::string f; do G.term(f, o->s2); while (f != "id"); } }
        else if (x < 63) { o = G.put(a, OP_X_DELTERM, path, slot, sess); do G.term(o->s, o->s2); while (o->s[0] == 'x'); }
        else if (x < 68) { o = G.put(a, OP_X_DELQ, path, slot, sess); SearchSpec s; std::string f, t; do G.term(f, t); while (f[0] == 'x'); s.q = qterm(f, t); if (g.chance(.4)) { auto b = std::make_shared<QSpec>(); b->type = Q_BOOL; b->ch = {s.q, qterm("body", G.word())}; b->occ = {(int)g.below(2), (int)g.below(3)}; if (b->occ[0] == 0 && b->occ[1] == 2) b->occ[0] = 1; s.q = b; } o->se.push_back(s); }
        else if (x < 73) { o = G.put(a, OP_X_GETID, path, slot, sess); std::string f; do G.term(f, o->s2); while (f != "id"); }
        else if (x < 80) o = G.put(a, OP_X_SIZE, path, slot, sess);
        else if (x < 85) o = G.put(a, OP_X_OPTIMIZE, path, slot, sess);
        else if (!multi) { o = G.put(a, x < 92 ? OP_X_FLUSH : OP_X_DUMP, path, slot, sess); o->a = 15; }
        else if (x < 88) o = G.put(a, OP_X_HASDEL, path, slot, sess);
        else { o = G.put(a, x < 92 ? OP_X_DELDOC : x < 97 ? OP_X_GETDOC : OP_X_ISDEL, path, slot, sess); o->a = (int)g.below(7); }
        return o;
    }
};
static void gen_c09(Gen &G) {
    Rng &g = G.g; Plan &p = G.p; G.base(1, 1); p.dump_flags = 15; G.big = false; G.maxwords = 5; p.flags |= PF_LIN; p.knob["blind"] = 1; if (G.words.size() > 6) G.words.resize(6);
    p.schemas[0].f[0].store = 1; bool many = g.chance(.25); if (g.chance(.3)) G.keyspace = g.range(2, 4);
    int fl = many ? 2 : (int)(g.below(2) * 2 + g.below(2) * 16) + (g.chance(.35) ? (g.chance(.7) ? 4 : 12) : 0); if (many) G.keyspace = 0;
    IndexGen I(G, fl); I.maxadds = 9; I.byid = many; int na = g.range(2, 4); p.actors.clear();
    if (many) { p.knob["many"] = 1; p.k.p_switch = g.pick(std::vector<double>{.05, .3, .5}); }
    else { p.k.p_switch = g.pick(std::vector<double>{.02, .2, .5}); }
    p.k.bb_mean = g.pick(std::vector<int>{0, 30, 300, 3000, 20000});
    if (g.chance(.3)) { p.k.p_fault[F_STALL] = .02; p.k.stall_us = 60000; }
    for (int a = 0; a < na; a++) p.actors.push_back(Actor{many && g.chance(.5) ? a : 0, {}});
    { std::map<int, int> m; int k = 0; for (auto &a : p.actors) { if (!m.count(a.proc)) m[a.proc] = k++; a.proc = m[a.proc]; } }
    for (int a = 0; a < na; a++) {
        int slot = many ? a : 0; OpP o;
        if (many || a == 0) { o = G.put(a, OP_X_OPEN, 0, slot); o->a = fl; for (int i = 0, n = many ? 0 : g.range(0, 4); i < n; i++) { o = G.put(a, OP_X_ADD, 0, slot); o->doc = I.doc(); I.adds++; } }
        if (!many) { o = G.put(a, OP_SLEEP, 0, 0); o->a = 50000000 + (a ? 0 : 1); }
    }
    int tot = g.range(4, 14); for (int i = 0; i < tot; i++) { int a = g.below((u32)na); I.op(a, 0, many ? a : 0, 0, true); if (g.chance(.1)) { OpP o = G.put(a, OP_SLEEP, 0, 0); o->a = g.range(1, 100) * 1000; } }
    for (int a = 0; a < na; a++) if (many || a == 0) { OpP o = G.put(a, OP_SLEEP, 0, 0); o->a = 2000000000; G.put(a, OP_X_CLOSE, 0, many ? a : 0); }
}
static void gen_c16(Gen &G) {
    Rng &g = G.g; Plan &p = G.p; G.base(1, 1); p.dump_flags = 15; G.keyspace = g.range(1, 6); G.oddkeys = g.chance(.4); p.flags |= PF_KEY; p.schemas[0].f[0].store = 1; if (G.words.size() > 8) G.words.resize(8);
    int fl = 4 + (int)g.below(2) * 2 + (int)g.below(2) * 16 + (g.chance(.4) ? 8 : 0); int ns = g.range(1, 4); IndexGen I(G, fl);
    for (int s = 0; s < ns; s++) {
        OpP o = G.put(0, OP_CLEAR_LOCKS, 0, 0, s); o->ac = true; o = G.put(0, OP_X_OPEN, 0, 0, s); o->a = (fl & 12) | (int)g.below(2) * 2 | (int)g.below(2) * 16;
        for (int i = 0, n = g.range(2, g.pick(std::vector<int>{6, 20, 40})); i < n; i++) I.op(0, 0, 0, s, false);
        if (g.chance(.5)) { o = G.put(0, OP_X_DUMP, 0, 0, s); o->a = 15; }
        if (g.chance(.8)) G.put(0, OP_X_CLOSE, 0, 0, s); else G.put(0, OP_EXIT, 0, 0, s);
    }
    if (g.chance(.4)) { p.k.p_fault[F_CRASH] = g.pick(std::vector<double>{.002, .01}); p.k.crash_budget = 2; p.k.p_fault[F_PROBE] = g.pick(std::vector<double>{0, .02}); }
    if (g.chance(.3)) p.k.p_fault[F_CLOCK] = .01;
}
// errors in calls of a shared Index: the others, and later calls, go on
static void gen_c07x(Gen &G) {
    Rng &g = G.g; Plan &p = G.p; G.base(1, 1); p.dump_flags = 1; G.big = false; G.maxwords = 4; p.schemas[0].f[0].store = 1; p.knob["goon"] = p.knob["blind"] = p.knob["finalopen"] = p.knob["xany"] = 1; if (g.chance(.5)) G.keyspace = 4;
    int fl = (int)(g.below(2) * 2 + g.below(2) * 16) + (g.chance(.4) ? (g.chance(.6) ? 4 : 12) : 0); IndexGen I(G, fl); int na = g.range(1, 3); p.actors.clear(); bool two = g.chance(.3);
    for (int a = 0; a < na; a++) p.actors.push_back(Actor{0, {}}); if (two) p.actors.push_back(Actor{1, {}});
    p.k.p_switch = g.pick(std::vector<double>{.02, .2, .5}); p.k.bb_mean = g.pick(std::vector<int>{0, 0, 300});
    OpP o = G.put(0, OP_X_OPEN, 0, 0); o->a = fl; for (int a = 0; a < na; a++) { o = G.put(a, OP_SLEEP, 0, 0); o->a = 50000000; }
    for (int i = 0, n = g.range(3, 16); i < n; i++) I.op((int)g.below((u32)na), 0, 0, 0, true);
    if (two) { int a = na; o = G.put(a, OP_SLEEP, 0, 0); o->a = 50000000 + g.range(0, 3000); for (int i = 0, n = g.range(1, 3); i < n; i++) { G.openw(a, 0, 1); Gen::WMix m; G.writer_ops(a, 0, 1, 0, m, g.range(0, 3)); o = G.put(a, OP_SLEEP, 0, 0); o->a = g.range(1, 400) * 1000; G.put(a, OP_CLOSE_W, 0, 1); } }
    o = G.put(0, OP_SLEEP, 0, 0); o->a = 2000000000; o = G.put(0, OP_X_CLOSE, 0, 0); o->cleanup = true;
    if (g.chance(.8)) { p.flags |= PF_FAULTY; error_faults(p, g, 3.0); }
}
static void gen_c07(Gen &G) { if (G.g.chance(.4)) { gen_c07x(G); return; } bool f = G.g.chance(.75); gen_locks(G, f, f); if (f || G.p.k.crash_budget == 0) G.p.knob["finalopen"] = 1; }

// ---------------------------------------------------------------- C14: every handle is given back
static void gen_c14(Gen &G) {
    Rng &g = G.g; Plan &p = G.p; u32 mode = g.below(10); p.flags |= PF_FDS; G.big = g.chance(.2); G.maxwords = 5;
    auto close_all = [&](int a, int S) { OpP o = G.put(a, OP_CLOSE_ALL, 0, 0, S); o->cleanup = true; };
    if (mode < 2) {   // files vanish under readers being opened
        gen_readers(G, g.chance(.4)); p.flags |= PF_FDS; std::map<int, int> cnt; for (auto &a : p.actors) cnt[a.proc]++;
        for (size_t a = 0; a < p.actors.size(); a++) if (cnt[p.actors[a].proc] == 1) close_all((int)a, p.actors[a].ops.empty() ? 0 : p.actors[a].ops.back()->sess);
    } else if (mode < 3) { gen_c07x(G); p.flags |= PF_FDS; OpP o = G.put(0, OP_SLEEP, 0, 0); o->a = 2000000000; close_all(0, 0); }
    else if (mode < 4) { gen_c17(G); p.flags |= PF_FDS | PF_FAULTY; p.knob["goon"] = p.knob["blind"] = 1; error_faults(p, g, 2.0); close_all(0, p.actors[0].ops.empty() ? 0 : p.actors[0].ops.back()->sess); }
    else {
        G.base(1, 3); p.dump_flags = g.pick(std::vector<int>{1, 7, 15}); p.flags |= PF_FAULTY; bool goon = g.chance(.5); if (goon) p.knob["goon"] = p.knob["blind"] = 1;
        Gen::WMix m; m.n_lo = 3; m.n_hi = g.pick(std::vector<int>{6, 15, 30}); if (g.chance(.3)) m.del = 5; if (g.chance(.3)) m.opt = 2; G.p_norm = g.pick(std::vector<double>{.2, .5});
        for (int s = 0, ns = g.range(1, 4); s < ns; s++) {
            OpP o = G.put(0, OP_CLEAR_LOCKS, 0, 0, s); o->ac = true;
            if (s && g.chance(.4)) { G.reader_session(0, 0, 1, s); }
            else { if (s && g.chance(.5)) G.openr(0, 0, 2, s); G.openw(0, 0, 0, s); G.writer_ops(0, 0, 0, s, m, g.range(m.n_lo, m.n_hi)); o = G.put(0, OP_CLOSE_W, 0, 0, s); o->cleanup = true; if (g.chance(.3)) G.dump(0, 0, 2, s); }
            if (g.chance(.2)) G.put(0, g.pick(std::vector<int>{OP_IS_LOCKED, OP_EXISTS}), 0, 0, s);
            close_all(0, s);
            if (!goon && g.chance(.3)) { o = G.put(0, OP_EXIT, 0, 0, s); o->cleanup = true; }
        }
        error_faults(p, g, g.pick(std::vector<double>{1, 3}));
    }
    p.k.fd_fresh = g.chance(.7);
}
// ---------------------------------------------------------------- C12: searches after any history
struct QGen {
    Gen &G; Rng &g; int mode; bool multi = false;   // mode: kind of the num field, 0 integers, 1 decimals, 2 anything
    QP mk(int t, const std::string &f = "") { QP q = std::make_shared<QSpec>(); q->type = t; q->field = f; return q; }
    std::string tfield() { u32 r = g.below(10); return r < 6 ? "body" : r < 8 ? "tag" : r < 9 ? "id" : "x" + std::to_string(g.below((u32)G.ndyn)); }
    std::string word(const std::string &f) { if (f == "id") return "d" + std::to_string(1 + g.below((u32)G.ndoc + 1)); return g.chance(.05) ? "zzz" + std::to_string(g.below(5)) : G.word(); }
    std::string part(std::string w) { size_t n = 1 + g.below((u32)w.size()); return w.substr(0, n); }
    std::string num() { std::string s = std::to_string(g.range(-20, 200)); if (mode == 1) s += "." + std::to_string(g.below(10)); return s; }
    QP term() { auto q = mk(Q_TERM, tfield()); q->s = {word(q->field)}; return q; }
    QP multi_q() { auto q = mk(Q_MULTI, tfield()); std::set<std::string> s; for (int i = 0, n = g.range(1, 5); i < n; i++) s.insert(word(q->field)); q->s.assign(s.begin(), s.end()); return q; }
    QP phrase() {
        auto q = mk(Q_PHRASE, g.chance(.9) ? "body" : tfield()); std::vector<std::string> used; int n = g.range(1, 4); q->a = g.chance(.4) ? g.range(1, 4) : 0; bool distinct = q->a > 0;
        for (int i = 0; i < n; i++) { std::string w; int z = 0; do w = word(q->field); while (distinct && std::find(used.begin(), used.end(), w) != used.end() && ++z < 20); if (z >= 20) break; used.push_back(w); q->s.push_back(w); q->pi.push_back(i == 0 ? 0 : !q->a && g.chance(.15) ? -1 : g.chance(.2) ? 2 : 1); }
        for (size_t i = 1; i < q->pi.size(); i++) if (q->pi[i] < 0) for (size_t k = 0; k < i; k++) if (q->s[k] == q->s[i]) q->pi[i] = 1;
        return q;
    }
    QP range() {
        auto q = mk(g.chance(.6) ? Q_RANGE : Q_TRANGE); q->a = g.chance(.5); q->b = g.chance(.5); std::string l, h;
        if (q->type == Q_TRANGE || g.chance(.2)) {
            q->field = g.chance(.9) ? "num" : tfield(); bool lex = q->type == Q_RANGE || g.chance(.1); l = num(); h = num();
            if (lex && q->type == Q_TRANGE) l = "x", h = "y"; if (lex ? h < l : strtod(h.c_str(), nullptr) < strtod(l.c_str(), nullptr)) std::swap(l, h);
        } else { q->field = tfield(); l = word(q->field); h = word(q->field); if (g.chance(.4)) l = part(l); if (g.chance(.4)) h = part(h); if (h < l) std::swap(l, h); }
        if (g.chance(.15)) { l = ""; q->a = 0; } else if (g.chance(.15)) { h = ""; q->b = 0; }
        q->s = {l, h}; return q;
    }
    QP pattern() {
        u32 r = g.below(3); std::string f = tfield(), w = word(f);
        if (r == 0) { auto q = mk(Q_PREFIX, f); q->s = {part(w)}; return q; }
        if (r == 1) { auto q = mk(Q_WILD, f); for (int i = 0, n = g.range(1, 2); i < n; i++) { size_t k = g.below((u32)w.size() + 1); u32 x = g.below(4); if (x == 0) w.insert(k, "*"); else if (x == 1 && k < w.size()) w[k] = '?'; else if (x == 2 && k < w.size()) w = w.substr(0, k) + "*"; else w = "*" + w.substr(k); } q->s = {w}; return q; }
        auto q = mk(Q_FUZZY, f); if (g.chance(.5)) { size_t k = g.below((u32)w.size()); u32 x = g.below(3); if (x == 0) w.erase(k, 1); else if (x == 1) w[k] = (char)('a' + g.below(26)); else w.insert(k, 1, (char)('a' + g.below(26))); } if (w.empty()) w = "a";
        q->s = {w}; q->x = g.pick(std::vector<float>{.25f, .5f, .5f, .75f}); q->a = g.chance(.5) ? 0 : (int)g.below(4); return q;
    }
    // spans; single: exactly one position per span, terms not in used
    QP span1(const std::string &f, std::set<std::string> &used) {
        auto fresh = [&]() { for (int i = 0; i < 30; i++) { std::string w = word(f); if (!used.count(w)) { used.insert(w); return w; } } std::string w = "none" + std::to_string(used.size()); used.insert(w); return w; };
        u32 r = g.below(10); QP q;
        if (r < 6) { q = mk(Q_SPANTERM, f); q->s = {fresh()}; return q; }
        if (r < 8) { q = mk(Q_SPANMULTI, f); for (int i = 0, n = g.range(1, 3); i < n; i++) q->s.push_back(fresh()); return q; }
        if (r < 9) { q = mk(Q_SPANOR, f); for (int i = 0, n = g.range(1, 3); i < n; i++) { auto t = mk(Q_SPANTERM, f); t->s = {fresh()}; q->ch.push_back(t); } return q; }
        q = mk(Q_SPANFIRST, f); auto t = mk(Q_SPANTERM, f); t->s = {fresh()}; q->ch = {t}; q->a = g.range(1, 8); return q;
    }
    QP span(const std::string &f, int depth) {
        u32 r = g.below(depth > 0 ? 10 : 4); QP q; std::set<std::string> used;
        switch (r) {
        case 0: case 1: q = mk(Q_SPANTERM, f); q->s = {word(f)}; return q;
        case 2: return span1(f, used);
        case 3: q = mk(Q_SPANPREFIX, f); q->s = {part(word(f))}; return q;
        case 4: q = mk(Q_SPANFIRST, f); q->ch = {span(f, depth - 1)}; q->a = g.range(1, 8); return q;
        case 5: q = mk(Q_SPANOR, f); for (int i = 0, n = g.range(1, 3); i < n; i++) q->ch.push_back(span(f, depth - 1)); return q;
        case 6: q = mk(Q_SPANNOT, f); q->ch = {span(f, depth - 1), span(f, depth - 1)}; return q;
        default: q = mk(Q_SPANNEAR, f); q->a = g.range(0, 5); q->b = g.chance(.5); for (int i = 0, n = g.range(1, 4); i < n; i++) q->ch.push_back(span1(f, used)); return q;
        }
    }
    QP filter() { return g.chance(.5) ? range() : query(1); }
    QP query(int depth) {
        u32 r = g.below(depth > 0 ? 20 : 12); QP q;
        if (r < 4) return term(); if (r < 5) return multi_q(); if (r < 7) return phrase(); if (r < 8) return range(); if (r < 10) return pattern(); if (r < 12) return span(g.chance(.9) ? "body" : tfield(), 2);
        if (r < 17) { q = mk(Q_BOOL); for (int i = 0, n = g.range(1, 4); i < n; i++) { q->ch.push_back(query(depth - 1)); u32 x = g.below(10); q->occ.push_back(x < 5 ? 0 : x < 8 ? 1 : 2); } return q; }
        if (r < 18) return mk(Q_ALL);
        if (r < 19) { q = mk(Q_FILTERED); q->ch = {query(depth - 1), filter()}; return q; }
        q = mk(Q_CONST); q->ch = {filter()}; return q;
    }
    SearchSpec search() {
        SearchSpec s; s.q = query(2); if (g.chance(.25)) { s.filter = filter(); s.cached = g.chance(.4); }
        if (g.chance(.35)) { s.first = g.chance(.5) ? 0 : (int)g.below(8); s.num = g.range(1, 10); }
        auto key = [&](int &k, std::string &f, int &rev) { u32 r = g.below(6); rev = g.chance(.4); if (r == 0) { k = 1; return; } if (r <= 2) { f = "num"; k = mode == 2 ? 3 : g.pick(mode == 1 ? std::vector<int>{3, 4, 2} : std::vector<int>{2, 2, 3, 4, 5}); return; } f = r == 3 ? "id" : r == 4 ? "tag" : "body"; k = g.pick(multi ? std::vector<int>{3, 3, 5} : std::vector<int>{3, 3, 5, 6}); };
        if (g.chance(.3)) { key(s.sort, s.sf, s.rev); if (s.sort > 1 && g.chance(.5)) key(s.sort2, s.sf2, s.rev2); }
        else if (g.chance(.3)) s.rev2 = 1 + (int)g.below(60);
        return s;
    }
};
static void gen_c12(Gen &G) {
    Rng &g = G.g; Plan &p = G.p; G.base(1, 3); p.dump_flags = 1; G.big = false; p.schemas[0].f[0].store = 1; p.schemas[0].f[2].index = g.pick(std::vector<int>{1, 5});
    if (G.words.size() > 8 && g.chance(.6)) G.words.resize((size_t)g.range(4, 8)); G.maxwords = g.pick(std::vector<int>{5, 10, 20});
    QGen Q{G, g, (int)g.below(3)}; int np = g.chance(.3) ? g.range(2, 3) : 1;
    for (int i = 1; i < np; i++) { SchemaSpec s = p.schemas[0]; if (g.chance(.5)) for (int k = 0; k < 5; k++) std::swap(s.f[k], s.f[g.below(5)]); p.schemas.push_back(s); G.add_path("/d" + std::to_string(i), i); }
    Gen::WMix m; m.n_lo = 3; m.n_hi = g.pick(std::vector<int>{10, 25, 60}); m.add = 20; m.del = g.pick(std::vector<double>{1, 4}); m.opt = g.pick(std::vector<double>{0, .2, 1}); m.commit = g.pick(std::vector<double>{.5, 2});
    auto fix = [&]() { if (Q.mode) for (auto &a : p.actors) for (auto &o : a.ops) if (o->doc) { auto d = std::make_shared<DocSpec>(*o->doc); for (auto &f : d->f) if (f.name == "num" && f.vals[0].find('.') == std::string::npos) { if (Q.mode == 1) f.vals[0] += "." + std::to_string(g.below(10)); else { static const char *junk[] = {"-abc", "+", "1x", "-", "12", "007", ".5", "-.5", "5.", "1e2", "abcd", "+7", "-17", "9a", "20", "-x1"}; f.vals[0] = junk[g.below(16)]; } } o->doc = d; } };
    auto searches = [&](int path, int slot, int sess, int actor) { OpP o = G.put(actor, OP_SEARCH, path, slot, sess); for (int i = 0, n = g.range(2, 7); i < n; i++) o->se.push_back(Q.search()); };
    int ns = g.range(1, 4); bool held[3] = {false, false, false};
    for (int s = 0; s < ns; s++) for (int path = 0; path < np; path++) {
        if (s && g.chance(.35)) G.reader_session(0, path, 11, s);
        else {
            G.openw(0, path, 0, s); int parts = g.range(1, 3);
            for (int k = 0; k < parts; k++) { G.writer_ops(0, path, 0, s, m, g.range(m.n_lo, m.n_hi) / parts + 1); if (path == 0 && g.chance(.3)) { int r = g.range(0, 2); if (!held[r]) { OpP o = G.openr(0, 0, r + 1, s); o->a = 1; held[r] = true; } searches(0, r + 1, s, 0); } }
            G.put(0, OP_CLOSE_W, path, 0, s);
        }
        OpP o = G.openr(0, path, 5, s); o->a = 1; searches(path, 5, s, 0);
        if (g.chance(.3)) { for (int k = 0, n = g.range(1, 4); k < n; k++) { o = G.put(0, OP_RDEL, path, 5, s); o->a = (int)g.below(50); } searches(path, 5, s, 0); if (g.chance(.5)) { G.put(0, OP_RCOMMIT, path, 5, s); searches(path, 5, s, 0); } }
        G.put(0, OP_CLOSE_R, path, 5, s);
    }
    for (int k = 0; k < 3; k++) if (held[k]) { searches(0, k + 1, ns, 0); G.put(0, OP_CLOSE_R, 0, k + 1, ns); }
    if (np > 1) {
        Q.multi = true; int mask = 0; for (int i = 0; i < np; i++) { OpP o = G.openr(0, i, 6 + i, ns); o->a = 1; mask |= 1 << (6 + i); if (g.chance(.3)) { o = G.put(0, OP_RDEL, i, 6 + i, ns); o->a = (int)g.below(50); } }
        for (int z = 0; z < 2; z++) { OpP o = G.put(0, OP_MSEARCH, 0, 0, ns); o->a = mask; o->b = z; for (int i = 0, n = g.range(2, 6); i < n; i++) o->se.push_back(Q.search()); }
        for (int i = 0; i < np; i++) { G.put(0, OP_CLOSE_R, i, 6 + i, ns); }
    }
    // another process searches while the index changes
    if (g.chance(.4)) { p.actors.push_back(Actor{1, {}}); p.k.p_switch = g.pick(std::vector<double>{.02, .1, .3}); for (int i = 0, n = g.range(1, 3); i < n; i++) { OpP o = G.openr(1, 0, 0); o->a = 1; searches(0, 0, 0, 1); if (g.chance(.5)) { o = G.put(1, OP_SLEEP, 0, 0); o->a = g.range(1, 100) * 300; searches(0, 0, 0, 1); } G.put(1, OP_CLOSE_R, 0, 0); } }
    fix();
}
// ---------------------------------------------------------------- C19: scores depend on the documents only
static void gen_c19(Gen &G) {
    Rng &g = G.g; Plan &p = G.p; G.base(1, 3); p.dump_flags = 15; G.big = false; p.schemas[0].f[0].store = 1;
    if (G.words.size() > 8 && g.chance(.6)) G.words.resize((size_t)g.range(4, 8)); G.maxwords = g.pick(std::vector<int>{5, 10, 20}); G.p_norm = .6;
    QGen Q{G, g, 0}; int np = g.chance(.3) ? g.range(2, 3) : 1; for (int i = 1; i < np; i++) G.add_path("/d" + std::to_string(i), 0);
    Gen::WMix m; m.n_lo = 3; m.n_hi = g.pick(std::vector<int>{10, 25, 60}); m.add = 20; m.del = m.dels = g.chance(.4) ? .7 : 0; m.opt = g.pick(std::vector<double>{0, .2, 1}); m.commit = g.pick(std::vector<double>{.5, 2});
    std::function<void(QP)> boost = [&](QP q) { if (!q) return; if (g.chance(.2)) q->c = g.pick(std::vector<int>{1, 2, 8, 12}); if (q->type == Q_BOOL || q->type == Q_FILTERED) { boost(q->ch[0]); if (q->type == Q_BOOL) for (size_t i = 1; i < q->ch.size(); i++) boost(q->ch[i]); } };
    auto scores = [&](int path, int mask, int sess, int actor) { OpP o = G.put(actor, OP_SCORES, path, 0, sess); o->a = mask; o->b = g.chance(.3) ? 0 : g.chance(.5) ? 1 : g.range(2, 40); for (int i = 0, n = g.range(2, 6); i < n; i++) { SearchSpec s; s.q = Q.query(2); boost(s.q); if (g.chance(.15)) s.filter = Q.filter(); o->se.push_back(s); } };
    int ns = g.range(1, 4);
    for (int s = 0; s < ns; s++) for (int path = 0; path < np; path++) {
        OpP o = G.put(0, OP_CLEAR_LOCKS, path, 0, s); o->ac = true;
        if (s && g.chance(.3)) { G.openr(0, path, 11, s); for (int i = 0, n = g.range(1, 4); i < n; i++) { o = G.put(0, OP_RNORM, path, 11, s); o->a = (int)g.below(50); o->s = G.normfield(); o->b = 1 + (int)g.below(250); if (g.chance(.2)) scores(path, 1 << 11, s, 0); } G.put(0, OP_CLOSE_R, path, 11, s); }
        else { G.openw(0, path, 0, s); int parts = g.range(1, 3);
            for (int k = 0; k < parts; k++) { G.writer_ops(0, path, 0, s, m, g.range(m.n_lo, m.n_hi) / parts + 1); if (g.chance(.3)) { o = G.openr(0, path, 4, s); o->a = 1; scores(path, 1 << 4, s, 0); G.put(0, OP_CLOSE_R, path, 4, s); } }
            if (m.del > 0 && g.chance(.7)) G.put(0, OP_OPTIMIZE, path, 0, s); G.put(0, OP_CLOSE_W, path, 0, s); }
        o = G.openr(0, path, 5, s); o->a = 1; scores(path, 1 << 5, s, 0); G.put(0, OP_CLOSE_R, path, 5, s);
    }
    if (np > 1) { int mask = 0; for (int i = 0; i < np; i++) { OpP o = G.openr(0, i, 6 + i, ns); o->a = 1; mask |= 1 << (6 + i); } scores(0, mask, ns, 0); for (int i = 0; i < np; i++) G.put(0, OP_CLOSE_R, i, 6 + i, ns); }
    if (g.chance(.3)) { p.actors.push_back(Actor{1, {}}); p.k.p_switch = g.pick(std::vector<double>{.02, .1, .3}); for (int i = 0, n = g.range(1, 3); i < n; i++) { OpP o = G.openr(1, 0, 0); o->a = 1; scores(0, 1, 0, 1); if (g.chance(.5)) { o = G.put(1, OP_SLEEP, 0, 0); o->a = g.range(1, 100) * 300; scores(0, 1, 0, 1); } G.put(1, OP_CLOSE_R, 0, 0); } }
    if (g.chance(.3)) { p.k.p_fault[F_CRASH] = g.pick(std::vector<double>{.001, .004}); p.k.crash_budget = 2; }
}
// ---------------------------------------------------------------- C10: threads with handles of their own
static std::string parse_string(Gen &G) {
    Rng &g = G.g; auto w = [&]() { return G.word(); };
    static const char *bad[] = {"(alpha", "alpha)", "AND", "alpha AND", "\"alpha", "[alpha", "body:", "body|:alpha", "alpha OR OR beta", "{a b", ":", "*", "\"\"", "", "()", "alpha~x", "+", "alpha^"};
    switch (g.below(12)) {
    case 0: return w() + " AND " + w(); case 1: return w() + " OR " + w() + " NOT " + w(); case 2: return "tag:" + w() + " +" + w() + " -" + w();
    case 3: return "\"" + w() + " " + w() + "\"~" + std::to_string(g.below(4)); case 4: return "body:[" + w() + " " + w() + "]"; case 5: return w().substr(0, 2) + "* OR tag:?" + w();
    case 6: return w() + "~0.6 " + w() + "^2.5"; case 7: return "(" + w() + " AND (" + w() + " OR tag:" + w() + ")) NOT " + w(); case 8: return "x" + std::to_string(g.below(9)) + ":" + w(); case 9: return "body|tag:(" + w() + " " + w() + ")";
    case 10: { std::string r; for (int i = 0, n = g.range(5, 30); i < n; i++) r += (i ? " " : "") + w(); return r; }
    default: return bad[g.below(sizeof bad / sizeof *bad)];
    }
}
static void gen_c10(Gen &G) {
    Rng &g = G.g; Plan &p = G.p; int na = g.range(2, 4); G.base(1, 3); p.dump_flags = g.pick(std::vector<int>{1, 7, 15}); G.big = g.chance(.3); G.maxwords = g.pick(std::vector<int>{3, 8}); p.schemas[0].f[0].store = 1; p.schemas[0].f[2].index = g.pick(std::vector<int>{1, 5}); p.knob["own"] = 1;
    p.k.p_switch = g.pick(std::vector<double>{.02, .1, .3, .5}); p.k.bb_mean = g.pick(std::vector<int>{10, 50, 300, 2000, 10000}); p.actors.clear(); QGen Q{G, g, 0};
    if (g.chance(.2)) { p.k.p_fault[F_STALL] = .01; p.k.stall_us = 60000; }
    // path 0 is shared, every thread has a path of its own besides, and may have an Index or an index in memory
    std::vector<int> mine(na), kind(na); Gen::WMix m; m.commit = 2; m.del = 2; m.opt = .5; bool shared = g.chance(.5);
    for (int a = 0; a < na; a++) { p.actors.push_back(Actor{0, {}}); kind[a] = g.pick(std::vector<int>{0, 0, 1, 2}); SchemaSpec sc = p.schemas[0]; if (g.chance(.5)) { for (int k = 0; k < 4; k++) std::swap(sc.f[k], sc.f[g.below(4)]); } if (kind[a] == 2) sc = p.schemas[0]; p.schemas.push_back(sc); mine[a] = G.add_path((kind[a] == 1 ? "ram" : "/d") + std::to_string(a + 1), a + 1); }
    bool anyx = false; for (int a = 0; a < na; a++) anyx |= kind[a] == 2; if (anyx) p.flags |= PF_KEY;
    std::vector<std::string> parsed;
    for (int a = 0; a < na; a++) {
        int P = mine[a]; OpP o; int S = 0;
        auto extra = [&](int path) {
            u32 x = g.below(10); if (x < 4) { std::string q = !parsed.empty() && g.chance(.3) ? parsed[g.below((u32)parsed.size())] : parse_string(G); parsed.push_back(q); OpP o = G.put(a, OP_QPARSE, path, 0, S); o->s2 = q; }
            else if (x < 5 && kind[a] != 2) G.put(a, OP_IS_LOCKED, path, 0, S); else if (x < 6) G.put(a, OP_EXISTS, path, 0, S); else if (x < 7) { OpP o = G.put(a, OP_SLEEP, path, 0, S); o->a = g.range(1, 2000) * 100; } };
        if (kind[a] == 1) { o = G.put(a, OP_CREATE, P, 0, S); o->schema = a + 1; }
        if (kind[a] == 2) {
            IndexGen I(G, 4 * (int)g.below(2)); I.maxadds = 9; if (I.flags) G.keyspace = 4; o = G.put(a, OP_X_OPEN, P, a, S); o->a = I.flags | (int)g.below(2) * 2 | (int)g.below(2) * 16;
            for (int i = 0, n = g.range(2, 10); i < n; i++) { I.op(a, P, a, S, false); if (g.chance(.3)) extra(P); } G.put(a, OP_X_CLOSE, P, a, S); G.keyspace = 0;
        }
        else for (int i = 0, n = g.range(1, 4); i < n; i++) {
            int path = shared && g.chance(.4) ? 0 : P; S = i + 1; u32 x = g.below(10);
            if (x < 5) { G.openw(a, path, a, S); for (int z = 0, k = g.range(1, 6); z < k; z++) { G.writer_ops(a, path, a, S, m, 1); if (g.chance(.2)) extra(path); if (g.chance(.1)) G.openw(a, path, a + 4, S); } o = G.put(a, OP_CLOSE_W, path, a, S); o->cleanup = true; o = G.put(a, OP_CLOSE_W, path, a + 4, S); o->cleanup = true; }
            else if (x < 7) G.reader_session(a, path, a, S);
            else { o = G.openr(a, path, a, S); for (int z = 0, k = g.range(1, 3); z < k; z++) { if (g.chance(.5)) { o = G.put(a, OP_SEARCH, path, a, S); for (int y = 0, q = g.range(1, 3); y < q; y++) o->se.push_back(Q.search()); } else if (g.chance(.5)) G.dump(a, path, a, S); else G.put(a, OP_IS_LATEST, path, a, S); if (g.chance(.3)) extra(path); } o = G.put(a, OP_CLOSE_R, path, a, S); o->cleanup = true; }
            if (path != P || kind[a] != 1) if (g.chance(.5)) { o = G.put(a, OP_CLOSE_STORE, path, 0, S); o->cleanup = true; }
        }
        if (kind[a] == 0) { S = 9; G.openr(a, P, a, S); o = G.put(a, OP_CLOSE_R, P, a, S); o->cleanup = true; }
    }
    if (!parsed.empty()) { p.actors.push_back(Actor{1, {}}); for (auto &q : parsed) { OpP o = G.put(na, OP_QPARSE, 0, 0); o->s2 = q; } }
}
static std::map<std::string, gen_ft> gens = {{"C01", gen_c01}, {"C02", gen_c02}, {"C03", gen_c03}, {"C04", gen_c04}, {"C05", gen_c05}, {"C06", gen_c06}, {"C07", gen_c07}, {"C08", gen_c08}, {"C09", gen_c09}, {"C10", gen_c10}, {"C11", gen_c11}, {"C12", gen_c12}, {"C13", gen_c13}, {"C14", gen_c14}, {"C15", gen_c15}, {"C16", gen_c16}, {"C17", gen_c17}, {"C18", gen_c18}, {"C19", gen_c19}};
bool known_prop(const std::string &s) { return gens.count(s) > 0; }
Plan make_plan(const std::string &prop, u64 seed) { Gen G(prop, seed); gens[prop](G); G.p.fin(); return G.p; }
