/* Client code of a simulated process: performs one operation against the
 * real library and reports what it observed.  One copy per process. */
#include "kapi.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include "global.h"
#include "except.h"
#include "store.h"
#include "index.h"
#include "search.h"
#include "ind.h"
#include "analysis.h"
#include "document.h"
#include "array.h"
#include "internal.h"
#undef free
#undef close

#define NP 8
#define NW 8
#define NR 12
#define NX 4
static Store *st[NP], *own[8][NP];
static IndexWriter *iws[NW];
static IndexReader *irs[NR];
static Index *ix[NX];
static Lock *lk[4];
static Analyzer *an_ix[NX];

static void emits(const char *s) { k_emit(s, strlen(s)); }
static void emitf(const char *fmt, ...) { char b[1500]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap); if (n > (int)sizeof b - 1) n = sizeof b - 1; k_emit(b, n); }

static void badf(const char *fmt, ...) { char b[1500]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap); if (n > (int)sizeof b - 1) n = sizeof b - 1; k_bad(b, n); }

static int booted;
void client_boot(int unthreaded) { (void)unthreaded; if (!booted) { booted = 1; frt_init(0, NULL); } }

static int is_ram(int p) { return k_path(p)[0] != '/'; }
static Store *get_store(int p)
{
    if (!st[p]) st[p] = is_ram(p) ? open_ram_store() : open_fs_store(k_path(p));
    return st[p];
}
static Store **store_of(const COp *op) { return op->own ? &own[op->own - 1][op->path] : &st[op->path]; }
static Store *op_store(const COp *op)
{
    Store **s = store_of(op);
    if (!*s) *s = is_ram(op->path) ? open_ram_store() : open_fs_store(k_path(op->path));
    return *s;
}
static Config mkcfg(const CConfig *c)
{
    Config k = default_config;
    if (c) {
        k.chunk_size = c->chunk_size; k.max_buffer_memory = c->max_buffer_memory; k.index_interval = c->index_interval;
        k.skip_interval = c->skip_interval; k.merge_factor = c->merge_factor; k.max_buffered_docs = c->max_buffered_docs;
        k.max_merge_docs = c->max_merge_docs; k.max_field_length = c->max_field_length; k.use_compound_file = c->use_compound;
    }
    return k;
}
static FieldInfos *mkfis(const CSchema *s)
{
    int i; FieldInfos *fis = fis_new(s->dstore, s->dindex, s->dtv);
    for (i = 0; i < s->nf; i++) { FieldInfo *fi = fi_new(intern(s->f[i].name), s->f[i].store, s->f[i].index, s->f[i].tv); fi->boost = s->f[i].boost; fis_add_field(fis, fi); }
    return fis;
}
static Document *mkdoc(const CDoc *d)
{
    int i, j; Document *doc = doc_new(); doc->boost = d->boost;
    for (i = 0; i < d->nf; i++) {
        DocField *df = df_new(intern(d->f[i].name)); df->boost = d->f[i].boost;
        for (j = 0; j < d->f[i].nvals; j++) { char *p = (char *)emalloc(d->f[i].lens[j] + 1); memcpy(p, d->f[i].vals[j], d->f[i].lens[j] + 1); df_add_data_len(df, p, d->f[i].lens[j]); }
        df->destroy_data = true;
        doc_add_field(doc, df);
    }
    return doc;
}

/* ---------------------------------------------------------------- queries */
static Query *mkq(const CQuery *q);
static Filter *mkfilter(const CQuery *q)
{
    if (q->type == Q_RANGE) return rfilt_new(intern(q->field), q->s[0], q->s[1], q->a, q->b);
    if (q->type == Q_TRANGE) return trfilt_new(intern(q->field), q->s[0], q->s[1], q->a, q->b);
    return qfilt_new_nr(mkq(q));
}
static Query *mkq_i(const CQuery *q);
static Query *mkq(const CQuery *q) { Query *r = mkq_i(q); if (r && q->c) r->boost = (float)q->c / 4; return r; }
static Query *mkq_i(const CQuery *q)
{
    int i; Query *r = NULL; Symbol f = q->field ? intern(q->field) : NULL;
    switch (q->type) {
    case Q_TERM: return tq_new(f, q->s[0]);
    case Q_BOOL: r = bq_new(false); for (i = 0; i < q->nc; i++) bq_add_query_nr(r, mkq(q->ch[i]), (BCType)q->occ[i]); return r;
    case Q_PHRASE: r = phq_new(f); for (i = 0; i < q->ns; i++) { if (q->pi[i] < 0) phq_append_multi_term(r, q->s[i]); else phq_add_term(r, q->s[i], q->pi[i]); } phq_set_slop(r, q->a); return r;
    case Q_PREFIX: r = prefixq_new(f, q->s[0]); ((FrtMTQSubQuery*)r)->max_terms = 100000; return r;
    case Q_WILD: r = wcq_new(f, q->s[0]); ((FrtMTQSubQuery*)r)->max_terms = 100000; return r;
    case Q_RANGE: return rq_new(f, q->s[0], q->s[1], q->a, q->b);
    case Q_TRANGE: return trq_new(f, q->s[0], q->s[1], q->a, q->b);
    case Q_FUZZY: return fuzq_new_conf(f, q->s[0], q->x, q->a, 100000);
    case Q_MULTI: r = multi_tq_new_conf(f, 1000, 0.0); for (i = 0; i < q->ns; i++) multi_tq_add_term(r, q->s[i]); return r;
    case Q_ALL: return maq_new();
    case Q_SPANTERM: return spantq_new(f, q->s[0]);
    case Q_SPANMULTI: r = spanmtq_new(f); for (i = 0; i < q->ns; i++) spanmtq_add_term(r, q->s[i]); return r;
    case Q_SPANPREFIX: r = spanprq_new(f, q->s[0]); ((SpanPrefixQuery*)r)->max_terms = 100000; return r;
    case Q_SPANFIRST: return spanfq_new_nr(mkq(q->ch[0]), q->a);
    case Q_SPANOR: r = spanoq_new(); for (i = 0; i < q->nc; i++) spanoq_add_clause_nr(r, mkq(q->ch[i])); return r;
    case Q_SPANNEAR: r = spannq_new(q->a, q->b); for (i = 0; i < q->nc; i++) spannq_add_clause_nr(r, mkq(q->ch[i])); return r;
    case Q_SPANNOT: return spanxq_new_nr(mkq(q->ch[0]), mkq(q->ch[1]));
    case Q_FILTERED: return fq_new(mkq(q->ch[0]), mkfilter(q->ch[1]));
    case Q_CONST: return csq_new_nr(mkfilter(q->ch[0]));
    }
    return r;
}
static SortField *mksf(int kind, const char *field, int rev)
{
    Symbol f = field ? intern(field) : NULL;
    switch (kind) {
    case 1: return sort_field_doc_new(rev);
    case 2: return sort_field_int_new(f, rev);
    case 3: return sort_field_string_new(f, rev);
    case 4: return sort_field_float_new(f, rev);
    case 5: return sort_field_auto_new(f, rev);
    case 6: return sort_field_byte_new(f, rev);
    }
    return sort_field_score_new(rev);
}
static int *rank_map(IndexReader **rs, int nr, int *total)
{
    int i, k = 0, n = 0, r = 0, *m;
    for (i = 0; i < nr; i++) n += rs[i]->max_doc(rs[i]);
    m = (int *)malloc(sizeof(int) * (n + 1));
    n = 0;
    for (k = 0; k < nr; k++) { int md = rs[k]->max_doc(rs[k]); for (i = 0; i < md; i++) m[n++] = rs[k]->is_deleted(rs[k], i) ? -1 : r++; }
    *total = n;
    return m;
}
struct each_arg { int n; int docs[4096]; };
static void each_cb(Searcher *s, int doc, float score, void *arg) { struct each_arg *e = (struct each_arg *)arg; (void)s; (void)score; if (e->n < 4096) e->docs[e->n++] = doc; }

static int search_pages_agree(Searcher *sea, Query *q, Filter *fl, Sort *so, const CSearch *s, TopDocs *td, int multi)
{
    /* a page is the slice of the whole answer; equal scores are ordered by document */
    TopDocs *all = searcher_search(sea, q, 0, INT_MAX, fl, so, NULL); int i, ok = 1; (void)multi;
    if (all->total_hits != td->total_hits) ok = 0;
    for (i = 0; ok && i < td->size; i++) if (s->first + i >= all->size || all->hits[s->first + i]->doc != td->hits[i]->doc || all->hits[s->first + i]->score != td->hits[i]->score) ok = 0;
    if (!s->sort) for (i = 1; ok && i < all->size; i++) if (all->hits[i - 1]->score == all->hits[i]->score && all->hits[i - 1]->doc >= all->hits[i]->doc) ok = 2;
    td_destroy(all);
    return ok;
}
static void do_search_i(Searcher *sea, int *map, int total, const CSearch *s, Query *q, Filter *fl, Sort *so)
{
    int i, pass;
    for (pass = 0; pass < (s->filter_cached ? 2 : 1); pass++) {
        TopDocs *td = searcher_search(sea, q, s->first, s->num < 0 ? INT_MAX : s->num, fl, so, NULL);
        emitf("H total=%d size=%d:", td->total_hits, td->size);
        for (i = 0; i < td->size; i++) { int d = td->hits[i]->doc; emitf(" %d", d >= 0 && d < total ? map[d] : -1000 - d); }
        emits("\n");
        /* scores: descending when sorting by score; hit scores never NaN */
        if (!s->sort) for (i = 1; i < td->size; i++) if (!(td->hits[i - 1]->score >= td->hits[i]->score)) { badf("scores not descending\n"); break; }
        if (td->size > 0 && s->first == 0 && !s->sort && td->hits[0]->score != td->max_score) badf("max_score is not the score of the best hit\n");
        if (!pass && (s->first > 0 || s->num >= 0)) { i = search_pages_agree(sea, q, fl, so, s, td, 0); if (i == 0) badf("a page of hits is not that part of the whole answer\n"); if (i == 2) badf("hits of equal score are not in document order\n"); }
        td_destroy(td);
    }
    if (s->num < 0 && !s->sort) {
        struct each_arg *e = (struct each_arg *)malloc(sizeof(struct each_arg)); e->n = 0;
        searcher_search_each(sea, q, fl, NULL, each_cb, e);
        emitf("E %d:", e->n);
        for (i = 0; i < e->n; i++) emitf(" %d", map[e->docs[i]]);
        emits("\n");
        free(e);
        if (!fl && s->first == 0) {
            int *buf = (int *)malloc(sizeof(int) * (total + 1)); int n = searcher_search_unscored(sea, q, buf, total + 1, 0);
            emitf("U %d:", n); for (i = 0; i < n; i++) emitf(" %d", map[buf[i]]); emits("\n");
            if (s->sort2_rev) {   /* from the document of a given rank on, in pieces */
                int off = 0, lim = 1 + s->sort2_rev % 3, from = 0; for (i = 0; i < total; i++) if (map[i] >= 0 && map[i] == s->sort2_rev / 3) { off = i; from = map[i]; }
                emitf("V %d:", from);
                while ((n = searcher_search_unscored(sea, q, buf, lim, off)) > 0) { for (i = 0; i < n; i++) emitf(" %d", map[buf[i]]); if (buf[n - 1] < off) { badf("search_unscored goes back\n"); break; } off = buf[n - 1] + 1; if (n < lim) break; }
                emits("\n");
            }
            free(buf);
        }
    }
}
static void do_search(Searcher *sea, IndexReader **rs, int nr, const CSearch *s)
{
    int total, *map = rank_map(rs, nr, &total); volatile int ex = 0;
    Query *volatile q = NULL; Filter *volatile fl = NULL; Sort *volatile so = NULL;
    TRY
        q = mkq(s->q); fl = s->filter ? mkfilter(s->filter) : NULL;
        if (s->sort) { so = sort_new(); sort_add_sort_field(so, mksf(s->sort, s->sort_field, s->sort_rev)); if (s->sort2) sort_add_sort_field(so, mksf(s->sort2, s->sort_field2, s->sort2_rev)); }
        do_search_i(sea, map, total, s, q, fl, so);
    XCATCHALL
        HANDLED(); ex = xcontext.excode;
    XENDTRY
    if (ex) emitf("X %d\n", ex);
    if (fl) filt_deref(fl);
    if (so) sort_destroy(so);
    if (q) q_deref(q);
    free(map);
}

/* every hit with its score */
static void do_scores(Searcher *sea, const CSearch *s)
{
    int i; Query *volatile q = NULL; Filter *volatile fl = NULL; TopDocs *volatile td = NULL;
    TRY
        q = mkq(s->q); fl = s->filter ? mkfilter(s->filter) : NULL;
        td = searcher_search(sea, q, 0, INT_MAX, fl, NULL, NULL);
        emitf("S %d:", td->total_hits);
        for (i = 0; i < td->size; i++) emitf(" %d=%.9g", td->hits[i]->doc, td->hits[i]->score);
        emits("\n");
    XFINALLY
        if (td) td_destroy(td);
        if (fl) filt_deref(fl);
        if (q) q_deref(q);
    XENDTRY
}
/* ---------------------------------------------------------------- dump */
static int cmpsym(const void *a, const void *b) { return strcmp(*(char *const *)a, *(char *const *)b); }

static void dump_doc(IndexReader *ir, int d, int rank)
{
    int i, j; Document *doc = ir->get_doc(ir, d);
    emitf("D %d\n", rank);
    for (i = 0; i < doc->size; i++) {
        DocField *df = doc->fields[i];
        emitf(" F %s %d", (char *)df->name, df->size);
        for (j = 0; j < df->size; j++) { emitf(" [%d:", df->lengths[j]); k_emit(df->data[j], df->lengths[j]); emits("]"); if (df->data[j][df->lengths[j]] != 0) badf("not terminated"); }
        emits("\n");
    }
    doc_destroy(doc);
}
/* what a dump holds, given back when it fails */
typedef struct Own { TermEnum *te, *te2; TermDocEnum *tde, *t2, *t3, *t4; LazyDoc *ld; } Own;
#define GIVE(x) do { if (o->x) { void *p_ = o->x; o->x = NULL; ((__typeof__(o->x))p_)->close((__typeof__(o->x))p_); } } while (0)
static void dump_lazy(IndexReader *ir, int d, Own *o)
{
    /* the lazy view of a document must agree with the eager one */
    int i, j; Document *doc = ir->get_doc(ir, d); LazyDoc *ld = o->ld = ir->get_lazy_doc(ir, d);
    if (ld->size != doc->size) badf("lazy document differs in size\n");
    else for (i = 0; i < doc->size; i++) {
        DocField *df = doc->fields[i]; LazyDocField *lf = lazy_doc_get(ld, df->name);
        if (!lf || lf->size != df->size) { badf("lazy field differs\n"); continue; }
        for (j = df->size - 1; j >= 0; j--) { char *t = lazy_df_get_data(lf, j); if (!t || memcmp(t, df->data[j], df->lengths[j])) badf("lazy data differs\n"); }
    }
    o->ld = NULL; lazy_doc_close(ld); doc_destroy(doc);
}
static void dump_tv(TermVector *tv)
{
    int i, j;
    emitf(" V %s %d", (char *)tv->field, tv->term_cnt);
    for (i = 0; i < tv->term_cnt; i++) {
        emitf(" %s/%d", tv->terms[i].text, tv->terms[i].freq);
        if (tv->terms[i].positions) for (j = 0; j < tv->terms[i].freq; j++) emitf(",%d", tv->terms[i].positions[j]);
    }
    if (tv->offsets) { emitf(" O%d", tv->offset_cnt); for (i = 0; i < tv->offset_cnt; i++) emitf(" %d-%d", (int)tv->offsets[i].start, (int)tv->offsets[i].end); }
    emits("\n");
}
/* a: 1 documents+terms, 2 also term vectors, 4 norms, 8 cross-checks (skipping, lazy docs) */
static void dump_reader_i(IndexReader *ir, int what, Own *o)
{
    int md = ir->max_doc(ir), nd = ir->num_docs(ir), i, j, k, live = 0, total;
    int *map = rank_map(&ir, 1, &total); const char **names; int nf = ir->fis->size, *sd = NULL;
    for (i = 0; i < md; i++) live += map[i] >= 0;
    emitf("N %d\n", live);
    if (nd != live) badf("num_docs %d but %d live\n", nd, live);
    if (nd < md && !ir->has_deletions(ir)) badf("has_deletions is false\n");
    for (i = 0; i < md; i++) if (map[i] >= 0) {
        dump_doc(ir, i, map[i]);
        if (what & 2) {
            names = (const char **)malloc(sizeof(char *) * (nf + 1));
            for (j = 0; j < nf; j++) names[j] = (const char *)ir->fis->fields[j]->name;
            qsort(names, nf, sizeof(char *), cmpsym);
            for (j = 0; j < nf; j++) { TermVector *tv = ir->term_vector(ir, i, (Symbol)names[j]); if (tv) { if (tv->term_cnt > 0) dump_tv(tv); tv_destroy(tv); } }
            free(names);
        }
        if ((what & 8) && (i % 5) == 0) dump_lazy(ir, i, o);
    }
    names = (const char **)malloc(sizeof(char *) * (nf + 1));
    for (j = 0; j < nf; j++) names[j] = (const char *)ir->fis->fields[j]->name;
    qsort(names, nf, sizeof(char *), cmpsym);
    for (j = 0; j < nf; j++) {
        Symbol f = (Symbol)names[j]; FieldInfo *fi = fis_get_field(ir->fis, f);
        char *has; TermEnum *te; TermDocEnum *tde; char last[MAX_WORD_SIZE * 2] = ""; int first = 1, nterm = 0;
        if (!fi_is_indexed(fi)) continue;
        has = (char *)calloc(md + 1, 1); if ((what & 8) && !sd) sd = (int *)calloc(md * 3 + 3, sizeof(int));
        te = o->te = ir->terms(ir, fi->number); tde = o->tde = ir->term_positions(ir);
        while (te->next(te)) {
            int n = 0, ldoc = -1, cnt = 0;
            if (!first && strcmp(last, te->curr_term) >= 0) badf("terms out of order %s %s\n", last, te->curr_term);
            first = 0; strncpy(last, te->curr_term, sizeof last - 1); nterm++;
            tde->seek(tde, fi->number, te->curr_term);
            while (tde->next(tde)) {
                int d = tde->doc_num(tde), fr = tde->freq(tde);
                if (d <= ldoc || d >= md) { badf("bad doc number %d after %d in %s\n", d, ldoc, te->curr_term); break; }
                ldoc = d;
                if (map[d] < 0) { badf("deleted doc %d in postings of %s\n", d, te->curr_term); continue; }
                if (!n++) emitf("T %s %s", names[j], te->curr_term);
                has[d] = 1; cnt++;
                emitf(" %d:%d", map[d], fr);
                for (k = 0; k < fr; k++) { int ps = tde->next_position(tde); if (sd && !k) { sd[(cnt - 1) * 3] = d; sd[(cnt - 1) * 3 + 1] = fr; sd[(cnt - 1) * 3 + 2] = ps; } emitf(",%d", ps); }
            }
            if (n) emits("\n");
            if (te->curr_ti.doc_freq < cnt) badf("doc_freq %d < %d live\n", te->curr_ti.doc_freq, cnt);
            if ((what & 8) && (nterm % 3 == 0 || cnt > 8) && cnt > 0) {
                /* skipping must land on the same documents as scanning */
                unsigned r = (unsigned)(nterm * 2654435761u + cnt * 40503u); int q = 0, steps, cur = -1; TermDocEnum *t3; if (!o->t3 || nterm % 9 == 0) { GIVE(t3); o->t3 = ir->term_positions(ir); } t3 = o->t3;
                if ((r >> 20) % 3 == 0) { t3->seek(t3, fi->number, "\x7fno such term"); if ((r >> 22) % 2 ? t3->next(t3) : t3->skip_to(t3, 0)) badf("a term that is not there has documents after one that is\n"); }
                if ((r >> 24) % 3 == 0) t3->seek_te(t3, te); else t3->seek(t3, fi->number, te->curr_term);
                for (steps = 0; steps < 8; steps++) {
                    int tgt, ok; r = r * 1103515245u + 12345u;
                    if ((r >> 16) % 4 == 0) { tgt = -1; ok = t3->next(t3); if (steps) q++; }
                    else { tgt = cur + 1 + (int)((r >> 8) % (unsigned)((r >> 28) % 2 ? md : 1 + md / 8)); ok = t3->skip_to(t3, tgt); if (steps) q++; while (q < cnt && sd[q * 3] < tgt) q++; }
                    if (ok != (q < cnt)) { badf("%s(%d) of %s after document %d: %s\n", tgt < 0 ? "next" : "skip_to", tgt, te->curr_term, cur, ok ? "goes on beyond the last document" : "misses a document"); break; }
                    if (!ok) break;
                    cur = t3->doc_num(t3);
                    { int fr = t3->freq(t3), ps = t3->next_position(t3); if (cur != sd[q * 3] || fr != sd[q * 3 + 1] || ps != sd[q * 3 + 2]) { badf("%s(%d) of %s gives %d/%d/%d, scan gives %d/%d/%d\n", tgt < 0 ? "next" : "skip_to", tgt, te->curr_term, cur, fr, ps, sd[q * 3], sd[q * 3 + 1], sd[q * 3 + 2]); break; } }
                }
                if (ir->doc_freq(ir, fi->number, te->curr_term) < cnt) badf("doc_freq lookup too small\n");
                {   int docs[8], freqs[8], m, sum = 0, calls = 0; TermDocEnum *t4 = o->t4 = ir->term_docs(ir); t4->seek(t4, fi->number, te->curr_term);
                    while ((m = t4->read(t4, docs, freqs, 8)) > 0 && calls++ < 100000) sum += m;
                    if (sum != cnt) badf("bulk read of %s gives %d docs, scan gives %d\n", te->curr_term, sum, cnt);
                    GIVE(t4); }
                if (te->curr_term[0]) { TermEnum *te2 = o->te2 = ir->terms_from(ir, fi->number, te->curr_term);
                    if (strcmp(te2->curr_term, te->curr_term)) badf("terms_from(%s) gives %s\n", te->curr_term, te2->curr_term);
                    GIVE(te2); }
            }
        }
        GIVE(te); GIVE(tde); if (j % 2) GIVE(t3);
        if ((what & 4) && fi_has_norms(fi)) {
            uchar *nm = ir_get_norms(ir, f); int n = 0;
            for (i = 0; i < md; i++) if (has[i]) { if (!n++) emitf("M %s", names[j]); emitf(" %d=%d", map[i], nm[i]); }
            if (n) emits("\n");
        }
        free(has);
    }
    GIVE(t3); free(names); free(map); free(sd);
}
static void dump_reader(IndexReader *ir, int what)
{
    Own *o = (Own *)calloc(1, sizeof *o);
    TRY dump_reader_i(ir, what, o);
    XFINALLY GIVE(te); GIVE(te2); GIVE(tde); GIVE(t2); GIVE(t3); GIVE(t4); if (o->ld) lazy_doc_close(o->ld); free(o);
    XENDTRY
}

/* ---------------------------------------------------------------- streams */
static OutStream *oss[4]; static InStream *iss[8]; static Store *cmpd[2];
static int do_stream(Store *store, const CStream *c)
{
    char *s; int i;
    if (((c->code >= 2 && c->code <= 15) && !oss[c->a]) || (c->code >= 21 && c->code <= 39 && !iss[c->a]) || ((c->code == 37 || c->code == 38) && !oss[(int)c->n]) || (c->code >= 52 && c->code <= 56 && !cmpd[c->a])) return c->code == 14 || c->code == 33 || c->code == 53 ? 0 : -1;
    switch (c->code) {
    case 1: oss[c->a] = store->new_output(store, c->s); break;
    case 2: os_write_byte(oss[c->a], (uchar)c->n); break;
    case 3: os_write_bytes(oss[c->a], (const uchar *)c->s, c->len); break;
    case 4: os_write_vint(oss[c->a], (unsigned)c->n); break;
    case 5: os_write_voff_t(oss[c->a], (off_t)c->n); break;
    case 6: os_write_i32(oss[c->a], (i32)c->n); break;
    case 7: os_write_i64(oss[c->a], (i64)c->n); break;
    case 8: os_write_u32(oss[c->a], (u32)c->n); break;
    case 9: os_write_u64(oss[c->a], (u64)c->n); break;
    case 10: os_write_string(oss[c->a], c->s); break;
    case 11: os_write_vll(oss[c->a], (u64)c->n); break;
    case 12: os_seek(oss[c->a], (off_t)c->n); break;
    case 13: os_flush(oss[c->a]); break;
    case 14: { OutStream *o = oss[c->a]; oss[c->a] = NULL; os_close(o); break; }
    case 15: emitf("%lld;", (long long)os_pos(oss[c->a])); break;
    case 20: iss[c->a] = store->open_input(store, c->s); break;
    case 21: emitf("%d;", is_read_byte(iss[c->a])); break;
    case 22: { uchar *volatile buf = malloc((size_t)c->len + 1); TRY is_read_bytes(iss[c->a], buf, c->len); XCATCHALL free(buf); XENDTRY unsigned h = 5381; for (i = 0; i < c->len; i++) h = h * 33 + buf[i]; free(buf); emitf("h%u;", h); } break;
    case 23: emitf("%u;", is_read_vint(iss[c->a])); break;
    case 24: emitf("%lld;", (long long)is_read_voff_t(iss[c->a])); break;
    case 25: emitf("%d;", is_read_i32(iss[c->a])); break;
    case 26: emitf("%lld;", (long long)is_read_i64(iss[c->a])); break;
    case 27: emitf("%u;", is_read_u32(iss[c->a])); break;
    case 28: emitf("%llu;", (unsigned long long)is_read_u64(iss[c->a])); break;
    case 29: s = is_read_string(iss[c->a]); emitf("s%d:", (int)strlen(s)); k_emit(s, strlen(s)); emits(";"); free(s); break;
    case 30: emitf("%llu;", (unsigned long long)is_read_vll(iss[c->a])); break;
    case 31: is_seek(iss[c->a], (off_t)c->n); break;
    case 32: iss[(int)c->n] = is_clone(iss[c->a]); break;
    case 33: { InStream *is = iss[c->a]; iss[c->a] = NULL; is_close(is); break; }
    case 34: emitf("%lld;", (long long)is_pos(iss[c->a])); break;
    case 35: emitf("%lld;", (long long)is_length(iss[c->a])); break;
    case 36: is_skip_vints(iss[c->a], (int)c->n); break;
    case 37: is2os_copy_bytes(iss[c->a], oss[(int)c->n], c->len); break;
    case 38: is2os_copy_vints(iss[c->a], oss[(int)c->n], c->len); break;
    case 39: s = is_read_string_safe(iss[c->a]); emitf("s%d:", (int)strlen(s)); k_emit(s, strlen(s)); emits(";"); free(s); break;
    case 40: emitf("%d;", store->exists(store, c->s) ? 1 : 0); break;
    case 41: emitf("%lld;", (long long)store->length(store, c->s)); break;
    case 42: store->remove(store, c->s); break;
    case 43: store->rename(store, c->s, c->s + c->len); break;
    case 44: emitf("%d;", store->count(store)); break;
    case 45: store->touch(store, c->s); break;
    case 50: { /* build a compound file c->s (first name) out of the following names (\n separated) */
        CompoundWriter *cw; char nm[64], cn[64]; const char *p = c->s; const char *e = strchr(p, '\n'); snprintf(cn, sizeof cn, "%.*s", (int)(e - p), p); cw = open_cw(store, cn);
        for (p = e + 1; *p; p = e + 1) { e = strchr(p, '\n'); snprintf(nm, sizeof nm, "%.*s", (int)(e - p), p); cw_add_file(cw, nm); }
        cw_close(cw); break; }
    case 51: cmpd[c->a] = open_cmpd_store(store, c->s); break;
    case 52: iss[(int)c->n] = cmpd[c->a]->open_input(cmpd[c->a], c->s); break;
    case 53: { Store *x = cmpd[c->a]; cmpd[c->a] = NULL; store_deref(x); break; }
    case 54: emitf("%d;", cmpd[c->a]->exists(cmpd[c->a], c->s) ? 1 : 0); break;
    case 55: emitf("%lld;", (long long)cmpd[c->a]->length(cmpd[c->a], c->s)); break;
    case 56: emitf("%d;", cmpd[c->a]->count(cmpd[c->a])); break;
    }
    return 0;
}

/* ---------------------------------------------------------------- ops */
static void close_all(void)
{
    int i, k;
    for (i = 0; i < NX; i++) if (ix[i]) { Index *x = ix[i]; ix[i] = NULL; TRY index_destroy(x); XCATCHALL HANDLED(); badf("error closing index\n"); XENDTRY }
    for (i = 0; i < NR; i++) if (irs[i]) { IndexReader *x = irs[i]; irs[i] = NULL; TRY ir_close(x); XCATCHALL HANDLED(); badf("error closing reader\n"); XENDTRY }
    for (i = 0; i < NW; i++) if (iws[i]) { IndexWriter *x = iws[i]; iws[i] = NULL; TRY iw_close(x); XCATCHALL HANDLED(); badf("error closing writer\n"); XENDTRY }
    for (i = 0; i < 4; i++) if (lk[i]) { Lock *l = lk[i]; lk[i] = NULL; l->release(l); close_lock(l); }
    for (k = 0; k < 8; k++) for (i = 0; i < NP; i++) if (own[k][i]) { Store *x = own[k][i]; own[k][i] = NULL; TRY store_deref(x); XCATCHALL HANDLED(); badf("error closing store\n"); XENDTRY }
    for (i = 0; i < NP; i++) if (st[i]) { Store *x = st[i]; st[i] = NULL; TRY store_deref(x); XCATCHALL HANDLED(); badf("error closing store\n"); XENDTRY }
}
static void copy_file_cb(const char *fn, void *arg)
{
    Store **p = (Store **)arg; OutStream *os = p[1]->new_output(p[1], fn); InStream *is = p[0]->open_input(p[0], fn);
    is2os_copy_bytes(is, os, (int)is_length(is)); os_close(os); is_close(is);
}
static void each_count(const char *fn, void *arg) { (void)fn; ++*(int *)arg; }

static void dump_doc_brief(Document *doc) {
    int i, j; if (!doc) { emits("none\n"); return; }
    for (i = 0; i < doc->size; i++) { DocField *df = doc->fields[i]; emitf(" F %s %d", (char *)df->name, df->size); for (j = 0; j < df->size; j++) { emitf(" [%d:", df->lengths[j]); k_emit(df->data[j], df->lengths[j]); emits("]"); } emits("\n"); }
}

static int body(const COp *op)
{
    IndexWriter *iw; IndexReader *ir; Store *s; int i;
    switch (op->code) {
    case OP_NOP: break;
    case OP_OPEN_STORE: op_store(op); break;
    case OP_CLOSE_STORE: if (!(s = *store_of(op))) return -1; *store_of(op) = NULL; store_deref(s); break;
    case OP_CREATE: { FieldInfos *fis = mkfis(op->schema); index_create(op_store(op), fis); fis_deref(fis); break; }
    case OP_OPEN_W: { Config c = mkcfg(op->cfg); if (iws[op->slot]) return -1; iws[op->slot] = iw_open(op_store(op), whitespace_analyzer_new(false), &c); break; }
    case OP_CLOSE_W: if (!(iw = iws[op->slot])) return -1; iws[op->slot] = NULL; iw_close(iw); break;
    case OP_ADD: { Document *d; if (!(iw = iws[op->slot])) return -1; d = mkdoc(op->doc); iw_add_doc(iw, d); doc_destroy(d); break; }
    case OP_DELTERM: if (!(iw = iws[op->slot])) return -1; iw_delete_term(iw, intern(op->s), op->s2); break;
    case OP_DELTERMS: if (!(iw = iws[op->slot])) return -1; iw_delete_terms(iw, intern(op->s), (char **)op->strs, op->nstr); break;
    case OP_COMMIT: if (!(iw = iws[op->slot])) return -1; iw_commit(iw); break;
    case OP_OPTIMIZE: if (!(iw = iws[op->slot])) return -1; iw_optimize(iw); break;
    case OP_DOCCOUNT: if (!(iw = iws[op->slot])) return -1; emitf("%d\n", iw_doc_count(iw)); break;
    case OP_ADD_READERS: { IndexReader *rs[NR]; int n = 0; if (!(iw = iws[op->slot])) return -1; for (i = 0; i < NR; i++) if ((op->a >> i) & 1) { if (!irs[i]) return -1; rs[n++] = irs[i]; } if (!n) return -1; iw_add_readers(iw, rs, n); break; }
    case OP_OPEN_R: if (irs[op->slot]) return -1; irs[op->slot] = ir_open(op_store(op)); k_mark(1);
        /* a reader that cannot be read right after opening counts as not opened */
        if (op->a) { TRY dump_reader(irs[op->slot], op->a); XCATCHALL ir = irs[op->slot]; irs[op->slot] = NULL; TRY ir_close(ir); XCATCHALL HANDLED(); XENDTRY XENDTRY }
        break;
    case OP_CLOSE_R: if (!(ir = irs[op->slot])) return -1; irs[op->slot] = NULL; ir_close(ir); break;
    case OP_DUMP: if (!(ir = irs[op->slot])) return -1; dump_reader(ir, op->a); break;
    case OP_LITE: if (!(ir = irs[op->slot])) return -1; emitf("%d\n", ir->num_docs(ir)); break;
    case OP_RDEL: { int total, *map, d = -1; if (!(ir = irs[op->slot])) return -1; map = rank_map(&ir, 1, &total); int live = 0; for (i = 0; i < total; i++) live += map[i] >= 0; for (i = 0; i < total; i++) if (live && map[i] == op->a % live) d = i; free(map); if (d < 0) return -1; ir_delete_doc(ir, d); break; }
    case OP_RUNDEL: if (!(ir = irs[op->slot])) return -1; ir_undelete_all(ir); break;
    case OP_RNORM: { int total, *map, d = -1; if (!(ir = irs[op->slot])) return -1; map = rank_map(&ir, 1, &total); int live = 0; for (i = 0; i < total; i++) live += map[i] >= 0; for (i = 0; i < total; i++) if (live && map[i] == op->a % live) d = i; free(map); if (d < 0 || fis_get_field_num(ir->fis, intern(op->s)) < 0) return -1; ir_set_norm(ir, d, intern(op->s), (uchar)op->b); break; }
    case OP_RCOMMIT: if (!(ir = irs[op->slot])) return -1; ir_commit(ir); break;
    case OP_IS_LATEST: if (!(ir = irs[op->slot])) return -1; emitf("%d\n", ir_is_latest(ir) ? 1 : 0); break;
    case OP_SEARCH: {
        Searcher *sea; if (!(ir = irs[op->slot])) return -1; sea = isea_new(ir); ((IndexSearcher *)sea)->close_ir = false;
        for (i = 0; i < op->nsearch; i++) do_search(sea, &ir, 1, &op->searches[i]);
        searcher_close(sea); break; }
    case OP_MSEARCH: {
        Searcher *ss[NR], *m; IndexReader *rs[NR]; int n = 0;
        for (i = 0; i < NR; i++) if ((op->a >> i) & 1) { if (!irs[i]) return -1; rs[n] = irs[i]; ss[n] = isea_new(irs[i]); ((IndexSearcher *)ss[n])->close_ir = false; n++; }
        if (n < 1) return -1;
        if (op->b == 0) { Searcher **heap = (Searcher **)malloc(sizeof(Searcher *) * n); memcpy(heap, ss, sizeof(Searcher *) * n); m = msea_new(heap, n, true);
            for (i = 0; i < op->nsearch; i++) do_search(m, rs, n, &op->searches[i]);
            searcher_close(m); }
        else { /* one reader over several indexes */
            IndexReader **heap = (IndexReader **)malloc(sizeof(IndexReader *) * n), *mr; for (i = 0; i < n; i++) { searcher_close(ss[i]); heap[i] = rs[i]; rs[i]->ref_cnt++; }
            mr = mr_open(heap, n); m = isea_new(mr);
            for (i = 0; i < op->nsearch; i++) do_search(m, rs, n, &op->searches[i]);
            searcher_close(m); }
        break; }
    case OP_SCORES: {
        Searcher *m; IndexReader *rs[NR]; int n = 0;
        for (i = 0; i < NR; i++) if ((op->a >> i) & 1) { if (!irs[i]) return -1; rs[n++] = irs[i]; }
        if (n < 1) return -1;
        for (i = 0; i < n; i++) if (rs[i]->has_deletions(rs[i])) { emits("deletions\n"); return 0; }
        emits("F"); for (i = 0; i < n; i++) { int j; for (j = 0; j < rs[i]->fis->size; j++) emitf(" %s", (char *)rs[i]->fis->fields[j]->name); } emits("\n");
        if (n == 1) { m = isea_new(rs[0]); ((IndexSearcher *)m)->close_ir = false; }
        else { IndexReader **heap = (IndexReader **)malloc(sizeof(IndexReader *) * n); for (i = 0; i < n; i++) { heap[i] = rs[i]; rs[i]->ref_cnt++; } m = isea_new(mr_open(heap, n)); }
        for (i = 0; i < op->nsearch; i++) do_scores(m, &op->searches[i]);
        searcher_close(m); break; }
    case OP_IS_LOCKED: emitf("%d\n", index_is_locked(op_store(op)) ? 1 : 0); break;
    case OP_CLEAR_LOCKS: s = op_store(op); s->clear_locks(s); break;
    case OP_LOCKOBJ: { s = op_store(op); if (lk[op->slot]) return -1; lk[op->slot] = open_lock(s, WRITE_LOCK_NAME); if (!lk[op->slot]->obtain(lk[op->slot])) { close_lock(lk[op->slot]); lk[op->slot] = NULL; emits("0\n"); } else emits("1\n"); break; }
    case OP_UNLOCKOBJ: { Lock *l = lk[op->slot]; if (!l) return -1; lk[op->slot] = NULL; l->release(l); close_lock(l); break; }
    case OP_SLEEP: k_sleep_us(op->a); break;
    case OP_FDS: emitf("%d\n", k_fd_count()); break;
    case OP_CLOSE_ALL: close_all(); break;
    case OP_EXISTS: emitf("%d\n", ir_index_exists(op_store(op)) ? 1 : 0); break;
    case OP_FOREIGN: { int fd; char p[300]; snprintf(p, sizeof p, "%s/%s", k_path(op->path), op->s); fd = open(p, O_CREAT | O_WRONLY | O_TRUNC, 0600); if (fd >= 0) { if (write(fd, op->s2, strlen(op->s2)) < 0) { } close(fd); } break; }
    case OP_COPY_TO_RAM: { /* path: source, slot: target (memory) path index */
        Store *src = op_store(op); if (st[op->slot]) return -1; st[op->slot] = open_ram_store_and_copy(src, false); break; }
    case OP_COPY_TO_FS: { Store *p[2]; int n = 0; p[0] = op_store(op); p[1] = get_store(op->slot); p[0]->each(p[0], each_count, &n); p[0]->each(p[0], copy_file_cb, p); break; }
    case OP_STREAM: s = op_store(op); for (i = 0; i < op->nst; i++) if (do_stream(s, &op->st[i])) return -1; break;

    /* ---- the shared Index object */
    case OP_X_OPEN: {
        HashSet *df; Config c; if (ix[op->slot]) return -1;
        df = hs_new_ptr(NULL); hs_add(df, (void *)intern("id")); hs_add(df, (void *)intern("body"));
        { Analyzer *a = whitespace_analyzer_new(false); TRY ix[op->slot] = index_new(op_store(op), a, df, (op->a & 1) != 0); XFINALLY hs_destroy(df); a_deref(a); XENDTRY }
        if (op->a & 2) ix[op->slot]->auto_flush = true;
        if (op->a & 4) { ix[op->slot]->key = hs_new_ptr(NULL); hs_add(ix[op->slot]->key, (void *)intern("id")); }
        if (op->a & 8) { if (!ix[op->slot]->key) ix[op->slot]->key = hs_new_ptr(NULL); hs_add(ix[op->slot]->key, (void *)intern("tag")); }
        if (op->a & 16) ix[op->slot]->config.use_compound_file = false;
        c = mkcfg(op->cfg); (void)c;
        break; }
    case OP_X_CLOSE: { Index *x = ix[op->slot]; if (!x) return -1; ix[op->slot] = NULL; index_destroy(x); break; }
    case OP_X_ADD: { Document *d; if (!ix[op->slot]) return -1; d = mkdoc(op->doc); TRY index_add_doc(ix[op->slot], d); XFINALLY doc_destroy(d); XENDTRY break; }
    case OP_X_DELID: if (!ix[op->slot]) return -1; index_delete_id(ix[op->slot], op->s2); break;
    case OP_X_DELDOC: if (!ix[op->slot]) return -1; index_delete(ix[op->slot], op->a); break;
    case OP_X_ISDEL: if (!ix[op->slot]) return -1; emitf("%d\n", index_is_deleted(ix[op->slot], op->a) ? 1 : 0); break;
    case OP_X_DELTERM: if (!ix[op->slot]) return -1; index_delete_term(ix[op->slot], intern(op->s), op->s2); break;
    case OP_X_DELQ: { Query *q; if (!ix[op->slot]) return -1; q = mkq(op->searches[0].q); index_delete_query(ix[op->slot], q, NULL, NULL); q_deref(q); break; }
    case OP_X_SIZE: if (!ix[op->slot]) return -1; emitf("%d\n", index_size(ix[op->slot])); break;
    case OP_X_HASDEL: if (!ix[op->slot]) return -1; emitf("%d\n", index_has_del(ix[op->slot]) ? 1 : 0); break;
    case OP_X_OPTIMIZE: if (!ix[op->slot]) return -1; index_optimize(ix[op->slot]); break;
    case OP_X_FLUSH: if (!ix[op->slot]) return -1; index_flush(ix[op->slot]); break;
    case OP_X_GETID: { Document *d; if (!ix[op->slot]) return -1; d = index_get_doc_id(ix[op->slot], op->s2); dump_doc_brief(d); if (d) doc_destroy(d); break; }
    case OP_X_GETDOC: { Document *d; if (!ix[op->slot]) return -1; d = index_get_doc_ts(ix[op->slot], op->a); dump_doc_brief(d); if (d) doc_destroy(d); break; }
    case OP_X_SEARCH: { TopDocs *td; if (!ix[op->slot]) return -1; td = index_search_str(ix[op->slot], (char *)op->s2, 0, 1000, NULL, NULL, NULL); emitf("%d\n", td->total_hits); td_destroy(td); break; }
    case OP_X_DUMP: { Index *x = ix[op->slot]; if (!x) return -1; (void)index_size(x); dump_reader(x->ir, op->a); break; }
    case OP_QPARSE: { /* a private parser per call */
        HashSet *all = NULL; QParser *qp; Query *q; char *t, *str; (void)all;
        qp = qp_new(whitespace_analyzer_new(false)); qp_add_field(qp, intern("body"), true, true); qp_add_field(qp, intern("tag"), false, true);
        str = estrdup(op->s2); q = qp_parse(qp, str); t = q->to_s(q, intern("body")); emits(t); emits("\n"); free(t); free(str); q_deref(q); qp_destroy(qp); break; }
    default: return -1;
    }
    return 0;
}

void client_exec(const COp *op)
{
    volatile int rc = 0;
    TRY
        rc = body(op);
    XCATCHALL
        HANDLED();
        k_status(xcontext.excode, xcontext.msg);
        rc = 1;
    XENDTRY
    if (rc == 0) k_status(0, "");
    else if (rc < 0) k_status(-1, "skipped");
}
