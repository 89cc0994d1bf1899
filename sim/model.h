// Executable reference model: what an index must contain and what a search must return.
#pragma once
#include "kernel.h"

struct FieldSpec { std::string name; std::vector<std::string> vals; float boost = 1; };
struct DocSpec { std::vector<FieldSpec> f; float boost = 1; };
struct SchemaField { std::string name; int store, index, tv; float boost; };
struct SchemaSpec { std::vector<SchemaField> f; int dstore = 1, dindex = 3, dtv = 0; const SchemaField *find(const std::string &n) const; SchemaField get(const std::string &n) const; };

struct QSpec; typedef std::shared_ptr<QSpec> QP;
struct QSpec {
    int type = 0; std::string field; std::vector<std::string> s; std::vector<int> pi; int a = 0, b = 0, c = 0; float x = 0;
    std::vector<QP> ch; std::vector<int> occ;
    CQuery cq; std::vector<const char *> cs; std::vector<CQuery *> cch; void fin();
};
std::string q_str(const QP &q);
struct SearchSpec { QP q, filter; int first = 0, num = -1; int sort = 0; std::string sf; int rev = 0; int sort2 = 0; std::string sf2; int rev2 = 0; int cached = 0; };

// one document as indexed (analysis done once)
struct Tok { std::string t; int pos; int start, end; };
struct MDoc {
    int uid = 0;
    std::shared_ptr<const DocSpec> d; const SchemaSpec *sch = nullptr;
    std::map<std::string, std::vector<Tok>> toks;         // indexed fields
    std::map<std::string, int> norm;                       // norm byte per field with norms
    std::string stored, tvs;                               // dump fragments
};
typedef std::shared_ptr<const MDoc> MDocP;
MDocP make_mdoc(int uid, std::shared_ptr<const DocSpec> d, const SchemaSpec *s);
int norm_encode(float f);

struct State {
    std::vector<MDocP> docs;
    mutable std::map<int, std::string> cache;
    const std::string &dump(int what) const;               // text as the client prints it (flags 1,2,4)
};
typedef std::shared_ptr<State> StateP;
bool doc_has_term(const MDoc &d, const std::string &f, const std::string &t);
StateP st_add(const StateP &s, const MDocP &d);
StateP st_del_term(const StateP &s, const std::string &f, const std::string &t);

// brute force query evaluation
bool q_match(const QP &q, const State &st, int rank);
void sort_hits(std::vector<int> &h, const State &st, const SearchSpec &s); bool sort_possible(const State &st, const std::string &f);
std::string first_diff(const std::string &a, const std::string &b);   // a expected, b found
