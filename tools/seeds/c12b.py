exec(open('/verif/tools/seeds/common.py').read())
id='C12-late-pages-of-several'; prop='C12'
needs='a later page of a search over several indexes whose best hits lie in one of them'
breaks='each index contributes only one page of hits, so later pages miss hits or show worse ones instead'
edits=[('c/src/search.c','''        TopDocs *td = s->search_w(s, weight, 0, max_size,
                                  filter, sort, post_filter, true);''','''        TopDocs *td = s->search_w(s, weight, 0, sort ? max_size : num_docs,
                                  filter, sort, post_filter, true);''')]
demo=r'''
int main(int argc, char **argv) {
    frt_init(0, NULL); int i, k, p, n = 0, bad = 0; const char *d = kit_scratch(); char dir[400]; Config c = kit_cfg(100, 10, 1); Searcher **seas = ALLOC_N(Searcher *, 2); char seen[60] = {0};
    for (k = 0; k < 2; k++) { snprintf(dir, sizeof dir, "%s/%d", d, k); mkdir(dir, 0700); Store *s = open_fs_store(dir); FieldInfos *f = kit_fis(); index_create(s, f); fis_deref(f);
        IndexWriter *iw = iw_open(s, whitespace_analyzer_new(false), &c); for (i = 0; i < 30; i++) kit_add(iw, "1", k ? "alpha" : "alpha beta gamma delta eps zeta eta theta"); iw_close(iw); seas[k] = isea_new(ir_open(s)); store_deref(s); }
    Searcher *m = msea_new(seas, 2, true); Query *q = tq_new(intern("body"), "alpha");
    for (p = 0; p < 6; p++) { TopDocs *td = searcher_search(m, q, p * 10, 10, NULL, NULL, NULL); n += td->size; for (i = 0; i < td->size; i++) seen[td->hits[i]->doc]++; td_destroy(td); }
    for (i = 0; i < 60; i++) if (seen[i] != 1) { printf("document %d on %d pages\n", i, seen[i]); bad = 1; }
    q_deref(q); searcher_close(m); kit_done(); return bad;
}
'''
