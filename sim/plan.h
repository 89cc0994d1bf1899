// Workload plan: everything a run does, derived from (property, seed).
#pragma once
#include "model.h"

struct StreamSpec { int code = 0, a = 0; i64 n = 0; std::string s; int len = 0; };
struct Op {
    int id = 0, code = 0, path = 0, slot = 0, a = 0, b = 0, c = 0;
    std::string s, s2; std::shared_ptr<DocSpec> doc; int cfg = -1; int schema = 0;
    std::vector<std::string> strs; std::vector<SearchSpec> se; std::vector<StreamSpec> st;
    int mirror = 0;          // id of the operation whose outcome this one must equal
    int sess = 0;            // after a crash or error the actor goes on with the next session
    bool ac = false;         // only after the previous session ended by a crash
    bool cleanup = false;    // still executed after an error in the session
    std::string expect;      // expected observation (streams)
    // C view
    COp co; CDoc cd; std::vector<CField> cf; std::vector<std::vector<const char *>> cvals; std::vector<std::vector<int>> clens;
    std::vector<const char *> cstrs; std::vector<CStream> cst; std::vector<CSearch> cse;
    void fin(struct Plan &p);
};
typedef std::shared_ptr<Op> OpP;
struct Actor { int proc = 0; std::vector<OpP> ops; };
enum {
    PF_ORPHANS = 1,      // clean-up oracle (C13)
    PF_FDS = 2,          // handle accounting (C14)
    PF_RECOVER = 4,      // probes also recover and continue (C02)
    PF_LIN = 8,          // shared Index object histories (C09)
    PF_FINAL_CONT = 16,  // after the run a new process continues (C02, C03)
    PF_KEY = 32,         // unique key (C16)
    PF_FAULTY = 64,      // error faults are injected: errors are acceptable outcomes
    PF_NOHANGALLOW = 128,
    PF_STREAM = 256
};
struct Plan {
    std::string prop; u64 seed = 0; KConfig k; u64 capacity = ~0ull;
    std::vector<CConfig> cfgs; std::vector<SchemaSpec> schemas; std::vector<std::string> paths; std::vector<int> path_schema;
    std::vector<Actor> actors; int flags = 0; int dump_flags = 15;
    std::set<int> dropped; int nops = 0; int next_id = 1; int only_path = -1;
    std::vector<CSchema> cschemas; std::vector<std::vector<CSchemaField>> csf;
    std::map<std::string, i64> knob;
    void fin();
    OpP op(int actor, int code, int path, int slot);   // append
};
const char *op_name(int code);
std::string op_str(const Op &o);
Plan make_plan(const std::string &prop, u64 seed);
bool known_prop(const std::string &prop);

struct RunStats {
    u64 runs = 0, ops = 0, nsys = 0, nswitch = 0, probes = 0, recoveries = 0, simus = 0, crashes = 0, errors = 0;
    u64 faults[F_MAX] = {0}; u64 sys[SK_MAX] = {0}; u64 opc[OP_MAX] = {0};
    std::map<std::string, u64> reach;
};
struct RunResult {
    bool bad = false; std::string cls, msg; u64 trace = 0, sched = 0; bool nontrivial = false; std::string log;
    std::map<SwitchKey, int> sw; std::map<SwitchKey, FaultRec> fl;
};
// faults/switches given: replay; otherwise generate
RunResult run_plan(Plan &p, bool replay, const std::map<SwitchKey, int> *sw, const std::map<SwitchKey, FaultRec> *fl, RunStats *st, bool log);
