exec(open('/verif/tools/seeds/common.py').read())
id='C12-cache-survives-skip'; prop='C12'
needs='a conjunction whose common term has more postings than the scorer reads at once, so that it skips past the read-ahead and then moves on by one'
breaks='after a skip past the read-ahead the scorer goes on with documents it had read before'
edits=[('c/src/q_term.c','''        ts->pointer_max = 1;
        ts->pointer = 0;
        ts->docs[0] = self->doc''','''        ts->pointer = 0;
        ts->docs[0] = self->doc''')]
demo=r'''
int main(int argc, char **argv) {
    frt_init(0, NULL); int i, k, bad = 0; const char *d = kit_scratch(); Config c = kit_cfg(100, 10, 1); Store *s = open_fs_store(d); FieldInfos *f = kit_fis(); index_create(s, f); fis_deref(f);
    IndexWriter *iw = iw_open(s, whitespace_analyzer_new(false), &c); for (i = 0; i < 400; i++) { char b[100]; snprintf(b, 100, "common%s%s", i % 61 == 7 || i % 61 == 8 ? " rare" : "", i % 3 ? " odd" : ""); kit_add(iw, "1", b); } iw_close(iw);
    const char *q[][2] = {{"common", "rare"}, {"rare", "common"}, {"odd", "rare"}, {"rare", "odd"}, {"common", "odd"}};
    for (k = 0; k < 5; k++) {
        Searcher *sea = isea_new(ir_open(s)); Query *b = bq_new(false); bq_add_query_nr(b, tq_new(intern("body"), q[k][0]), BC_MUST); bq_add_query_nr(b, tq_new(intern("body"), q[k][1]), BC_MUST);
        TopDocs *td = searcher_search(sea, b, 0, 500, NULL, NULL, NULL); int want = 0; char seen[400] = {0};
        for (i = 0; i < 400; i++) { int rare = i % 61 == 7 || i % 61 == 8, odd = i % 3 != 0; want += (strcmp(q[k][0], "rare") && strcmp(q[k][1], "rare") ? 1 : rare) && (strcmp(q[k][0], "odd") && strcmp(q[k][1], "odd") ? 1 : odd); }
        for (i = 0; i < td->size; i++) seen[td->hits[i]->doc]++;
        for (i = 0; i < 400; i++) if (seen[i] > 1) { printf("document %d twice\n", i); bad = 1; }
        if (td->total_hits != want) { printf("%s and %s: %d hits, %d expected\n", q[k][0], q[k][1], td->total_hits, want); bad = 1; }
        td_destroy(td); q_deref(b); searcher_close(sea);
    }
    store_deref(s); kit_done(); return bad;
}
'''
