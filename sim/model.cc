#include "model.h"
#include <math.h>
#include <string.h>
#include <algorithm>
#include <functional>
#include <stdlib.h>

const SchemaField *SchemaSpec::find(const std::string &n) const { for (auto &x : f) if (x.name == n) return &x; return nullptr; }
SchemaField SchemaSpec::get(const std::string &n) const { auto *p = find(n); if (p) return *p; return SchemaField{n, dstore, dindex, dtv, 1.0f}; }

// 3-bit mantissa, 5-bit exponent
int norm_encode(float f) {
    if (!(f > 0)) return 0;
    u32 i; memcpy(&i, &f, 4); int mant = (int)((i >> 21) & 7), ex = (int)(i >> 24) - 48;
    if (ex > 31) { ex = 31; mant = 7; } if (ex < 0) { ex = 0; mant = 1; }
    return (ex << 3) | mant;
}
static bool ws(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; }

MDocP make_mdoc(int uid, std::shared_ptr<const DocSpec> d, const SchemaSpec *s) {
    auto m = std::make_shared<MDoc>(); m->uid = uid; m->d = d; m->sch = s;
    char b[64];
    std::map<std::string, std::string> tvs;
    for (auto &f : d->f) {
        SchemaField sf = s->get(f.name);
        if (sf.store) {
            snprintf(b, sizeof b, " F %s %d", f.name.c_str(), (int)f.vals.size()); m->stored += b;
            for (auto &v : f.vals) { snprintf(b, sizeof b, " [%d:", (int)v.size()); m->stored += b; m->stored += v; m->stored += "]"; }
            m->stored += "\n";
        }
        if (!(sf.index & 1)) continue;
        std::vector<Tok> tk; int pos = 0, off = 0, n = 0;
        if (sf.index & 2) {
            for (auto &v : f.vals) {
                size_t i = 0;
                while (i < v.size()) { while (i < v.size() && ws(v[i])) i++; size_t j = i; while (j < v.size() && !ws(v[j])) j++; if (j > i) { tk.push_back({v.substr(i, j - i), pos++, off + (int)i, off + (int)j}); n++; } i = j; }
                off += (int)v.size() + 1;
            }
        } else for (auto &v : f.vals) { tk.push_back({v.size() >= 255 ? v.substr(0, 254) : v, pos++, off, off + (int)v.size()}); off += (int)v.size() + 1; n++; }
        if (tk.empty()) continue;
        if (!(sf.index & 4)) m->norm[f.name] = norm_encode(sf.boost * d->boost * f.boost * (float)(1.0 / sqrt((double)n)));
        if (sf.tv) {
            std::map<std::string, std::vector<int>> by; for (auto &t : tk) by[t.t].push_back(t.pos);
            std::string o; o += " V " + f.name + " " + std::to_string(by.size());
            for (auto &kv : by) { o += " " + kv.first + "/" + std::to_string(kv.second.size()); if (sf.tv & 2) for (int p : kv.second) o += "," + std::to_string(p); }
            if (sf.tv & 4) { o += " O" + std::to_string(tk.size()); for (auto &t : tk) o += " " + std::to_string(t.start) + "-" + std::to_string(t.end); }
            tvs[f.name] = o + "\n";
        }
        m->toks[f.name] = std::move(tk);
    }
    for (auto &kv : tvs) m->tvs += kv.second;
    return m;
}
const std::string &State::dump(int what) const {
    what &= 6; auto it = cache.find(what); if (it != cache.end()) return it->second;
    std::string o = "N " + std::to_string(docs.size()) + "\n";
    std::map<std::string, std::map<std::string, std::string>> terms; std::map<std::string, std::string> norms;
    for (size_t r = 0; r < docs.size(); r++) {
        const MDoc &d = *docs[r]; std::string rs = std::to_string(r);
        o += "D " + rs + "\n" + d.stored; if (what & 2) o += d.tvs;
        for (auto &kv : d.toks) {
            std::map<std::string, std::pair<int, std::string>> by;
            for (auto &t : kv.second) { auto &e = by[t.t]; e.first++; e.second += "," + std::to_string(t.pos); }
            auto &tf = terms[kv.first];
            for (auto &e : by) tf[e.first] += " " + rs + ":" + std::to_string(e.second.first) + e.second.second;
            auto n = d.norm.find(kv.first); if (n != d.norm.end() && (what & 4)) norms[kv.first] += " " + rs + "=" + std::to_string(n->second);
        }
    }
    for (auto &f : terms) {
        for (auto &t : f.second) o += "T " + f.first + " " + t.first + t.second + "\n";
        auto n = norms.find(f.first); if (n != norms.end()) o += "M " + f.first + n->second + "\n";
    }
    return cache[what] = o;
}
bool doc_has_term(const MDoc &d, const std::string &f, const std::string &t) { auto it = d.toks.find(f); if (it == d.toks.end()) return false; for (auto &k : it->second) if (k.t == t) return true; return false; }
StateP st_add(const StateP &s, const MDocP &d) { auto n = std::make_shared<State>(); n->docs = s->docs; n->docs.push_back(d); return n; }
StateP st_del_term(const StateP &s, const std::string &f, const std::string &t) { auto n = std::make_shared<State>(); for (auto &d : s->docs) if (!doc_has_term(*d, f, t)) n->docs.push_back(d); return n; }

std::string first_diff(const std::string &a, const std::string &b) {
    size_t i = 0, ls = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) { if (a[i] == '\n') ls = i + 1; i++; }
    auto line = [&](const std::string &s) { size_t e = s.find('\n', i); return s.substr(ls, std::min<size_t>((e == std::string::npos ? s.size() : e) - ls, 160)); };
    return "expected \"" + line(a) + "\" found \"" + line(b) + "\"";
}

// ---------------------------------------------------------------- queries
void QSpec::fin() {
    cs.clear(); cch.clear(); for (auto &x : s) cs.push_back(x.c_str()); for (auto &q : ch) { q->fin(); cch.push_back(&q->cq); }
    cq.type = type; cq.field = field.empty() ? nullptr : field.c_str(); cq.ns = (int)cs.size(); cq.s = cs.data(); cq.pi = pi.data(); cq.a = a; cq.b = b; cq.c = c; cq.x = x; cq.nc = (int)cch.size(); cq.ch = cch.data(); cq.occ = occ.data();
    // an empty string stands for an open end of a range
    if (type == Q_RANGE || type == Q_TRANGE) for (auto &p : cs) if (!*p) p = nullptr;
}
std::string q_str(const QP &q) {
    static const char *n[] = {"?", "term", "bool", "phrase", "prefix", "wild", "range", "fuzzy", "multi", "all", "spanterm", "spanfirst", "spanor", "spannear", "spannot", "filtered", "const", "trange", "spanmulti", "spanprefix"};
    if (!q) return "-"; std::string o = std::string(n[q->type]) + "(" + q->field; for (size_t i = 0; i < q->s.size(); i++) { o += " " + q->s[i]; if (i < q->pi.size()) o += "@" + std::to_string(q->pi[i]); }
    if (q->c) o += " ^" + std::to_string(q->c) + "/4"; if (q->a || q->b) o += " a=" + std::to_string(q->a) + " b=" + std::to_string(q->b);
    for (size_t i = 0; i < q->ch.size(); i++) { o += " "; if (i < q->occ.size()) o += "?+-"[q->occ[i]]; o += q_str(q->ch[i]); } return o + ")";
}
// ---- spans: every query of the family yields (start, end) pairs ordered by start
typedef std::vector<std::pair<int, int>> Spans;
static Spans term_spans(const MDoc &d, const std::string &f, const std::function<bool(const std::string &)> &ok) { Spans r; auto it = d.toks.find(f); if (it != d.toks.end()) for (auto &t : it->second) if (ok(t.t)) r.push_back({t.pos, t.pos + 1}); return r; }
static bool starts(const std::string &a, const std::string &p) { return a.compare(0, p.size(), p) == 0; }
static Spans spans_of(const QP &q, const MDoc &d) {
    Spans r;
    switch (q->type) {
    case Q_SPANTERM: return term_spans(d, q->field, [&](const std::string &t) { return t == q->s[0]; });
    case Q_SPANMULTI: return term_spans(d, q->field, [&](const std::string &t) { for (auto &x : q->s) if (x == t) return true; return false; });
    case Q_SPANPREFIX: return term_spans(d, q->field, [&](const std::string &t) { return starts(t, q->s[0]); });
    case Q_SPANFIRST: for (auto &x : spans_of(q->ch[0], d)) if (x.second <= q->a) r.push_back(x); return r;
    case Q_SPANOR: for (auto &c : q->ch) { auto x = spans_of(c, d); r.insert(r.end(), x.begin(), x.end()); } std::sort(r.begin(), r.end()); return r;
    case Q_SPANNOT: { auto ex = spans_of(q->ch[1], d); for (auto &x : spans_of(q->ch[0], d)) { bool hit = false; for (auto &e : ex) hit |= e.first < x.second && x.first < e.second; if (!hit) r.push_back(x); } return r; }
    case Q_SPANNEAR: {   // clauses are single positions, no two clauses share a term
        std::vector<Spans> c; for (auto &k : q->ch) c.push_back(spans_of(k, d)); int n = (int)c.size();
        auto after = [&](int k, int p) { int b = -1; for (auto &x : c[k]) if (x.first > p && (b < 0 || x.first < b)) b = x.first; return b; };
        for (int k = 0; k < n; k++) for (auto &x : c[k]) {
            int p = x.first, mx = p; bool ok = true;
            if (q->b) { if (k) break; int last = p; for (int j = 1; j < n && ok; j++) { last = after(j, last); ok = last >= 0; } mx = last; }
            else for (int j = 0; j < n && ok; j++) if (j != k) { int z = after(j, p); ok = z >= 0; mx = std::max(mx, z); }
            if (ok && mx + 1 - p - n <= q->a) r.push_back({p, mx + 1});
        }
        std::sort(r.begin(), r.end()); return r; }
    }
    return r;
}
static bool any_tok(const MDoc &d, const std::string &f, const std::function<bool(const std::string &)> &ok) { auto it = d.toks.find(f); if (it == d.toks.end()) return false; for (auto &t : it->second) if (ok(t.t)) return true; return false; }
static bool wild(const char *p, const char *t) { if (!*p) return !*t; if (*p == '*') return wild(p + 1, t) || (*t && wild(p, t + 1)); return *t && (*p == '?' || *p == *t) && wild(p + 1, t + 1); }
static int edits(const std::string &a, const std::string &b) { std::vector<int> r(b.size() + 1); for (size_t j = 0; j <= b.size(); j++) r[j] = (int)j; for (size_t i = 1; i <= a.size(); i++) { int dg = r[0]; r[0] = (int)i; for (size_t j = 1; j <= b.size(); j++) { int up = r[j]; r[j] = std::min(std::min(r[j] + 1, r[j - 1] + 1), dg + (a[i - 1] != b[j - 1])); dg = up; } } return r[b.size()]; }
static bool number(const std::string &s, double *v) { char *e = nullptr; if (s.empty()) return false; *v = strtod(s.c_str(), &e); return e == s.c_str() + s.size(); }
static bool fuzzy(const QP &q, const std::string &t) {
    const std::string &w = q->s[0]; int pre = q->a; double minsim = q->x;
    if (pre >= (int)w.size()) return t == w;
    if (!starts(t, w.substr(0, (size_t)pre))) return false;
    std::string a = w.substr((size_t)pre), b = t.substr((size_t)pre); int n = (int)a.size(), m = (int)b.size(), mn = std::min(n, m);
    if (!m) return (pre ? 1.0 - (double)(m + n) / pre : 0.0) > minsim;
    return 1.0 - (double)edits(a, b) / (pre + mn) > minsim;
}
static bool range_ok(const QP &q, const std::string &t, bool typed) {
    const std::string &lo = q->s[0], &hi = q->s[1]; double l = 0, h = 0, v = 0;   // an empty string: open end
    if (typed && (lo.empty() || number(lo, &l)) && (hi.empty() || number(hi, &h))) {
        if (!number(t, &v)) return false;
        return (lo.empty() || (q->a ? v >= l : v > l)) && (hi.empty() || (q->b ? v <= h : v < h));
    }
    return (lo.empty() || (q->a ? t >= lo : t > lo)) && (hi.empty() || (q->b ? t <= hi : t < hi));
}
static bool phrase(const QP &q, const MDoc &d) {
    auto it = d.toks.find(q->field); if (it == d.toks.end()) return false; auto &tk = it->second;
    std::vector<std::pair<int, std::vector<std::string>>> ps; int pos = 0;
    for (size_t i = 0; i < q->s.size(); i++) { if (q->pi[i] < 0 && !ps.empty()) { ps.back().second.push_back(q->s[i]); continue; } if (!ps.empty()) pos += q->pi[i]; ps.push_back({pos, {q->s[i]}}); }
    std::vector<std::vector<int>> at(ps.size());
    for (size_t k = 0; k < ps.size(); k++) { for (auto &t : tk) for (auto &w : ps[k].second) if (t.t == w) { at[k].push_back(t.pos - ps[k].first); break; } if (at[k].empty()) return false; }
    for (size_t k = 0; k < ps.size(); k++) for (int b : at[k]) {   // b: smallest adjusted position
        bool ok = true; for (auto &v : at) { bool any = false; for (int x : v) any |= x >= b && x <= b + q->a; ok &= any; } if (ok) return true;
    }
    return false;
}
bool q_match(const QP &q, const State &st, int rank) {
    const MDoc &d = *st.docs[rank];
    switch (q->type) {
    case Q_TERM: return doc_has_term(d, q->field, q->s[0]);
    case Q_BOOL: { bool must = false, should = false, any = false; for (size_t i = 0; i < q->ch.size(); i++) { bool m = q_match(q->ch[i], st, rank); if (q->occ[i] == 2) { if (m) return false; } else if (q->occ[i] == 1) { must = true; if (!m) return false; } else { should = true; any |= m; } } return must || (should ? any : !q->ch.empty()); }   // only exclusions: all other documents
    case Q_PHRASE: return phrase(q, d);
    case Q_PREFIX: return any_tok(d, q->field, [&](const std::string &t) { return starts(t, q->s[0]); });
    case Q_WILD: return any_tok(d, q->field, [&](const std::string &t) { return wild(q->s[0].c_str(), t.c_str()); });
    case Q_MULTI: return any_tok(d, q->field, [&](const std::string &t) { for (auto &x : q->s) if (x == t) return true; return false; });
    case Q_FUZZY: return any_tok(d, q->field, [&](const std::string &t) { return fuzzy(q, t); });
    case Q_RANGE: case Q_TRANGE: return any_tok(d, q->field, [&](const std::string &t) { return range_ok(q, t, q->type == Q_TRANGE); });
    case Q_ALL: return true;
    case Q_FILTERED: return q_match(q->ch[0], st, rank) && q_match(q->ch[1], st, rank);
    case Q_CONST: return q_match(q->ch[0], st, rank);
    default: return !spans_of(q, d).empty();
    }
}
// ---- sorting: the order the hits must come in
static const std::string *sort_text(const MDoc &d, const std::string &f) { auto it = d.toks.find(f); if (it == d.toks.end()) return nullptr; const std::string *b = nullptr; for (auto &t : it->second) if (!b || *b < t.t) b = &t.t; return b; }
bool sort_possible(const State &st, const std::string &f) { for (auto &d : st.docs) if (sort_text(*d, f)) return true; return false; }
static int sort_cmp(int kind, const std::string &f, const State &st, int a, int b) {
    if (kind == 1) return a < b ? -1 : a > b;
    const std::string *x = sort_text(*st.docs[a], f), *y = sort_text(*st.docs[b], f); double v = 0;
    if (kind == 5) { kind = 3; for (auto &d : st.docs) { auto *t = sort_text(*d, f); if (t) { kind = number(*t, &v) ? 2 : 3; break; } } }
    if (kind == 2) { long p = x ? strtol(x->c_str(), nullptr, 10) : 0, q = y ? strtol(y->c_str(), nullptr, 10) : 0; return p < q ? -1 : p > q; }
    if (kind == 4) { float p = x ? strtof(x->c_str(), nullptr) : 0, q = y ? strtof(y->c_str(), nullptr) : 0; return p < q ? -1 : p > q; }
    if (!x || !y) { int m = kind == 3 ? 1 : -1; return x ? -m : y ? m : 0; }
    int c = x->compare(*y); return c < 0 ? -1 : c > 0;
}
void sort_hits(std::vector<int> &h, const State &st, const SearchSpec &s) {
    std::stable_sort(h.begin(), h.end(), [&](int a, int b) { int c = sort_cmp(s.sort, s.sf, st, a, b); if (s.rev) c = -c; if (!c && s.sort2) { c = sort_cmp(s.sort2, s.sf2, st, a, b); if (s.rev2) c = -c; } return c ? c < 0 : a < b; });
}
