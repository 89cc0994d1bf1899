#include "plan.h"
#include <string.h>

static const char *onames[] = {"nop",
    "open_store", "close_store", "create", "open_writer", "close_writer", "add", "delete_term", "delete_terms",
    "commit", "optimize", "doc_count", "add_readers",
    "open_reader", "close_reader", "dump", "reader_delete", "reader_undelete", "reader_norm", "reader_commit", "is_latest", "search",
    "is_locked", "clear_locks", "exit", "sleep", "lock_obj", "unlock_obj",
    "copy_to_ram", "copy_to_fs", "fds", "close_all",
    "ix_open", "ix_close", "ix_add", "ix_delete_id", "ix_delete_term", "ix_delete_doc", "ix_delete_query", "ix_size",
    "ix_optimize", "ix_flush", "ix_get_doc", "ix_get_id", "ix_search", "ix_dump", "ix_has_del", "ix_is_deleted", "ix_term_id",
    "stream", "foreign", "exists", "multi_search", "parse", "add_and_close", "lite", "qparse", "scores"};
const char *op_name(int c) { return c >= 0 && c < (int)(sizeof onames / sizeof *onames) ? onames[c] : "?"; }

std::string op_str(const Op &o) {
    std::string r = "op " + std::to_string(o.id) + " " + op_name(o.code) + " path=" + std::to_string(o.path) + " slot=" + std::to_string(o.slot);
    if (o.a || o.b || o.c) r += " args=" + std::to_string(o.a) + "," + std::to_string(o.b) + "," + std::to_string(o.c);
    if (!o.s.empty()) r += " " + o.s; if (!o.s2.empty()) r += ":" + o.s2.substr(0, 60); if (o.cfg >= 0) r += " cfg=" + std::to_string(o.cfg);
    for (auto &x : o.strs) r += " " + x;
    if (o.doc) { r += " doc{"; for (auto &f : o.doc->f) { r += f.name + "="; for (auto &v : f.vals) r += "[" + (v.size() > 40 ? v.substr(0, 40) + "..." + std::to_string(v.size()) : v) + "]"; r += " "; } r += "}"; }
    for (auto &s : o.se) r += " " + q_str(s.q) + (s.filter ? " filter " + q_str(s.filter) : "") + " sort=" + std::to_string(s.sort) + s.sf + " first=" + std::to_string(s.first) + " num=" + std::to_string(s.num);
    for (auto &s : o.st) r += " (" + std::to_string(s.code) + " " + std::to_string(s.a) + " " + std::to_string(s.n) + " " + (s.code == 3 ? "bytes" : s.s.substr(0, 20)) + "/" + std::to_string(s.len) + ")";
    if (o.ac) r += " [after crash]"; if (o.cleanup) r += " [cleanup]";
    return r;
}
void Op::fin(Plan &p) {
    cstrs.clear(); cst.clear(); cse.clear(); memset(&co, 0, sizeof co); co.id = id; co.code = code; co.path = path; co.slot = slot; co.a = a; co.b = b; co.c = c; co.s = s.c_str(); co.s2 = s2.c_str();
    if (doc) {
        cf.clear(); cvals.assign(doc->f.size(), {}); clens.assign(doc->f.size(), {});
        for (size_t i = 0; i < doc->f.size(); i++) { auto &f = doc->f[i]; for (auto &v : f.vals) { cvals[i].push_back(v.c_str()); clens[i].push_back((int)v.size()); }
            CField x; x.name = f.name.c_str(); x.nvals = (int)f.vals.size(); x.vals = cvals[i].data(); x.lens = clens[i].data(); x.boost = f.boost; cf.push_back(x); }
        cd.nf = (int)cf.size(); cd.f = cf.data(); cd.boost = doc->boost; co.doc = &cd;
    }
    if (cfg >= 0) co.cfg = &p.cfgs[cfg];
    if (code == OP_CREATE) co.schema = &p.cschemas[schema];
    for (auto &x : strs) cstrs.push_back(x.c_str()); co.nstr = (int)cstrs.size(); co.strs = cstrs.data();
    for (auto &x : st) { CStream y; y.code = x.code; y.a = x.a; y.n = x.n; y.s = x.s.c_str(); y.len = x.len; cst.push_back(y); } co.nst = (int)cst.size(); co.st = cst.data();
    for (auto &x : se) { CSearch y; memset(&y, 0, sizeof y); x.q->fin(); y.q = &x.q->cq; if (x.filter) { x.filter->fin(); y.filter = &x.filter->cq; } y.first = x.first; y.num = x.num; y.sort = x.sort; y.sort_field = x.sf.c_str(); y.sort_rev = x.rev; y.sort2 = x.sort2; y.sort_field2 = x.sf2.c_str(); y.sort2_rev = x.rev2; y.filter_cached = x.cached; cse.push_back(y); }
    co.nsearch = (int)cse.size(); co.searches = cse.data();
}
void Plan::fin() {
    cschemas.clear(); csf.assign(schemas.size(), {});
    for (size_t i = 0; i < schemas.size(); i++) { for (auto &f : schemas[i].f) csf[i].push_back(CSchemaField{f.name.c_str(), f.store, f.index, f.tv, f.boost}); cschemas.push_back(CSchema{(int)csf[i].size(), csf[i].data(), schemas[i].dstore, schemas[i].dindex, schemas[i].dtv}); }
    nops = 0; int ac = 0; bool own = knob.count("own") > 0; for (auto &a : actors) { ac++; for (auto &o : a.ops) { o->fin(*this); o->co.own = own ? ac : 0; nops++; } }
}
OpP Plan::op(int actor, int code, int path, int slot) { while ((int)actors.size() <= actor) actors.push_back(Actor()); auto o = std::make_shared<Op>(); o->id = next_id++; o->code = code; o->path = path; o->slot = slot; actors[actor].ops.push_back(o); return o; }
