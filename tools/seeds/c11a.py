exec(open('/verif/tools/seeds/common.py').read())
id='C11-merged-skips'; prop='C11'
needs='a term in more documents than the skip interval, in segments that were merged with documents deleted from a later segment, then skipping through its postings'
breaks='the skip entries of merged segments are numbered without the shift of the segment they come from, so skipping lands on the wrong documents'
edits=[('c/src/index.c','''            if (0 == (df % skip_interval)) {
                skip_buf_add(skip_buf, last_doc);
            }

            doc_code = (doc - last_doc) << 1;    /* use low bit to flag freq=1 */''','''            if (0 == (df % skip_interval)) {
                skip_buf_add(skip_buf, NULL != doc_map ? doc - 1 : last_doc);
            }

            doc_code = (doc - last_doc) << 1;    /* use low bit to flag freq=1 */''')]
demo=r'''
int main(void) {
    frt_init(0, NULL); int i, k, bad = 0; char b[20]; Store *s = open_ram_store(); Config c = kit_cfg(10, 4, 1); c.skip_interval = 4; FieldInfos *f = kit_fis(); index_create(s, f); fis_deref(f);
    IndexWriter *iw = iw_open(s, whitespace_analyzer_new(false), &c);
    for (i = 0; i < 60; i++) { sprintf(b, "%d", i); kit_add(iw, b, i % 3 ? "alpha" : "beta"); }
    iw_commit(iw); iw_delete_term(iw, intern("id"), "17"); iw_delete_term(iw, intern("id"), "31"); iw_optimize(iw); iw_close(iw);
    IndexReader *ir = ir_open(s); int fn = fis_get_field_num(ir->fis, intern("body"));
    for (k = 0; k < ir->max_doc(ir); k++) { /* skip_to(k) must agree with stepping */
        TermDocEnum *a = ir_term_docs_for(ir, intern("body"), "alpha"), *d = ir_term_docs_for(ir, intern("body"), "alpha"); int x, y = -1;
        while (d->next(d)) if (d->doc_num(d) >= k) { y = d->doc_num(d); break; }
        x = a->skip_to(a, k) ? a->doc_num(a) : -1; if (x != y) { printf("skip to %d: %d instead of %d\n", k, x, y); bad = 1; } a->close(a); d->close(d); }
    ir_close(ir); store_deref(s); return bad;
}
'''
